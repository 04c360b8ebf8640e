//! Sequential arms: generated operation sequences against a reference map.
use crate::keys::{self, Key, show};
use crate::tree::{Index, Tree};
use crate::val::{self, CVal, Payload, Val};
use kit::{CaseResult, Ctx, Src, ensure, fail, sched};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub const STEP_BUDGET: u64 = 400_000;

/// Keys close to `k` (usually absent): the ones a broken comparison would confuse with it.
pub fn neighbours(k: &[u8], out: &mut Vec<Key>) {
    let mut a = k.to_vec();
    a.push(0);
    out.push(a);
    let mut a = k.to_vec();
    a.push(1);
    out.push(a);
    let mut a = k.to_vec();
    a.resize(k.len().div_ceil(8) * 8, 0);
    out.push(a);
    let mut a = k.to_vec();
    a.extend_from_slice(&[0; 8]);
    out.push(a);
    if !k.is_empty() {
        out.push(k[..k.len() - 1].to_vec());
        let mut b = k.to_vec();
        *b.last_mut().unwrap() ^= 1;
        out.push(b);
        let mut b = k.to_vec();
        b[0] ^= 0x80;
        out.push(b);
        out.push(k[..k.len() / 2].to_vec());
        out.push(k[..(k.len() - 1) / 8 * 8].to_vec());
        if k.len() > 8 {
            out.push(k[8..].to_vec());
            let mut b = k.to_vec();
            b[7] ^= 1;
            out.push(b);
            let mut b = k.to_vec();
            b[8] = b[8].wrapping_add(1);
            out.push(b);
        }
    }
    out.retain(|k| k.len() <= 256);
}

pub fn bounded<R>(f: impl FnOnce() -> R) -> R {
    sched::solo_budget(STEP_BUDGET);
    let r = f();
    sched::solo_budget(u64::MAX);
    r
}

/// Check one key through all three read paths.
fn check_key<T: Tree>(t: &T, k: &[u8], want: Option<u64>, what: &str) -> CaseResult {
    let g = t.guard();
    let a = bounded(|| t.get_g(k, &g)).map(|o| T::out_id(&o));
    let b = bounded(|| t.get(k)).map(|o| T::out_id(&o));
    let c = bounded(|| t.get_ref(k, &g)).map(Payload::id);
    ensure!(a == want, "{what}: get_with_guard({}) = {a:?}, expected {want:?}", show(k));
    ensure!(b == want, "{what}: get({}) = {b:?}, expected {want:?}", show(k));
    ensure!(c == want, "{what}: get_ref({}) = {c:?}, expected {want:?}", show(k));
    Ok(())
}

fn check_all<T: Tree>(t: &T, m: &BTreeMap<Key, u64>, uni: &[Key], what: &str) -> CaseResult {
    for k in uni {
        check_key(t, k, m.get(k).copied(), what)?;
    }
    for (k, v) in m {
        check_key(t, k, Some(*v), what)?;
    }
    Ok(())
}

/// C01: every result of an arbitrary operation sequence agrees with the reference map.
pub fn model<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let size = if src.chance(1, 4) { 400 } else { 60 };
    let pool = keys::pool(src, size);
    if pool.is_empty() {
        return Ok(());
    }
    let nops = 1 + src.logu(if ctx.thorough { 600 } else { 300 }) as usize;
    let t = T::new();
    let mut m: BTreeMap<Key, u64> = BTreeMap::new();
    let mut next = 1u64;
    val::reset();
    let bulk = src.chance(1, 2);
    ctx.say(|| format!("{} pool={} e.g. {} ops={nops} bulk={bulk}\n", T::NAME, pool.len(),
        pool.iter().take(6).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    if bulk {
        let mut ks = pool.clone();
        let o = keys::order(src, &mut ks);
        let n = src.urange(0, ks.len());
        ctx.say(|| format!("bulk insert of {n} in order {o}\n"));
        for k in &ks[..n] {
            let id = next;
            next += 1;
            let old = bounded(|| t.insert(k, id)).map(|o| T::out_id(&o));
            let want = m.insert(k.clone(), id);
            ensure!(old == want, "insert({}) returned {old:?}, expected {want:?}", show(k));
        }
    }
    let mut near = Vec::new();
    for _ in 0..nops {
        let k = src.pick(&pool).clone();
        match src.weighted(&[5, 3, 1, 1]) {
            0 => {
                let id = next;
                next += 1;
                let via = src.below(2);
                ctx.say(|| format!("insert {} {id}; ", show(&k)));
                let old = bounded(|| {
                    if via == 0 {
                        t.insert(&k, id)
                    } else {
                        let g = t.guard();
                        t.insert_g(&k, id, &g)
                    }
                })
                .map(|o| T::out_id(&o));
                let want = m.insert(k.clone(), id);
                ensure!(old == want, "insert({}) returned {old:?}, expected {want:?}", show(&k));
            }
            1 => {
                ctx.say(|| format!("get {}; ", show(&k)));
                check_key(&t, &k, m.get(&k).copied(), "during")?;
            }
            2 => {
                near.clear();
                neighbours(&k, &mut near);
                let q = src.pick(&near).clone();
                ctx.say(|| format!("get {}; ", show(&q)));
                check_key(&t, &q, m.get(&q).copied(), "during")?;
            }
            _ => {
                let (l, e) = (t.len(), t.is_empty());
                ensure!(l == m.len(), "len() = {l}, expected {}", m.len());
                ensure!(e == m.is_empty(), "is_empty() = {e} with {} keys", m.len());
            }
        }
    }
    check_all(&t, &m, &pool, "at the end")?;
    near.clear();
    for k in pool.iter().take(40) {
        neighbours(k, &mut near);
    }
    for q in &near {
        check_key(&t, q, m.get(q).copied(), "at the end")?;
    }
    ctx.count("ops", next + nops as u64);
    ctx.nontrivial = m.len() > 24 || (m.keys().any(|k| k.len() > 8) && m.len() > 3);
    ctx.count("over_one_leaf", u64::from(m.len() > 24));
    ctx.count("with_sublayers", u64::from(m.keys().any(|k| k.len() > 8)));
    Ok(())
}

/// C01: large trees (several internode levels, wide and deep layers).
pub fn large<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max: u64 = if ctx.thorough { 60_000 } else { 14_000 };
    let n = (max / 16 + src.below(max)) as usize;
    let fam = src.below(4);
    let mut ks = match fam {
        0 => keys::dense(src, n, 32),
        1 => {
            // several sub-layers of dense integers
            let subs = src.urange(2, 12);
            let mut out = Vec::new();
            for s in 0..subs {
                let mut pre = keys::prefix(src, 40);
                pre.push(s as u8);
                let stride = *src.pick(&[1u64, 256]);
                out.extend(keys::ints(&pre, 0, stride, n / subs));
            }
            out
        }
        2 => {
            // decimal strings: variable length
            let pre = keys::prefix(src, 20);
            (0..n)
                .map(|i| {
                    let mut k = pre.clone();
                    k.extend_from_slice((i * 7).to_string().as_bytes());
                    k
                })
                .collect()
        }
        _ => {
            let mut r = kit::Rng::new(src.below(1 << 30));
            let maxl = src.urange(4, 40) as u64;
            let alpha = src.range(2, 250);
            (0..n)
                .map(|_| {
                    let l = r.below(maxl) as usize;
                    (0..l).map(|_| r.below(alpha) as u8).collect()
                })
                .collect()
        }
    };
    ks = keys::dedup(ks);
    let ord = keys::order(src, &mut ks);
    ctx.say(|| format!("{} family {fam}: {} keys, {ord}, e.g. {}\n", T::NAME, ks.len(), ks.iter().take(3).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    let t = T::new();
    val::reset();
    let half = src.chance(1, 2);
    let upto = if half { ks.len() / 2 } else { ks.len() };
    let g = t.guard();
    for (i, k) in ks[..upto].iter().enumerate() {
        let old = bounded(|| t.insert_g(k, i as u64 + 1, &g)).map(|o| T::out_id(&o));
        ensure!(old.is_none(), "insert of new key {} (#{i}) returned {old:?}", show(k));
    }
    drop(g);
    ensure!(t.len() == upto, "len() = {} after {upto} distinct inserts", t.len());
    let g = t.guard();
    for (i, k) in ks.iter().enumerate() {
        let want = (i < upto).then_some(i as u64 + 1);
        let got = bounded(|| t.get_g(k, &g)).map(|o| T::out_id(&o));
        ensure!(got == want, "get({}) (#{i} of {upto} inserted) = {got:?}, expected {want:?}", show(k));
        let got = bounded(|| t.get_ref(k, &g)).map(Payload::id);
        ensure!(got == want, "get_ref({}) (#{i} of {upto} inserted) = {got:?}, expected {want:?}", show(k));
    }
    drop(g);
    let set: std::collections::HashSet<&Key> = ks[..upto].iter().collect();
    let mut near = Vec::new();
    for k in ks.iter().step_by((ks.len() / 300).max(1)) {
        neighbours(k, &mut near);
    }
    for q in &near {
        if !set.contains(q) {
            let got = bounded(|| t.get(q)).map(|o| T::out_id(&o));
            ensure!(got.is_none(), "get({}) = {got:?} for a key never inserted", show(q));
        }
    }
    // Updates return the previous value and do not grow the map.
    let mut upd = 0;
    let off = ks.len() as u64 + 1;
    for (i, k) in ks[..upto].iter().enumerate().step_by(3) {
        let old = bounded(|| t.insert(k, off + i as u64)).map(|o| T::out_id(&o));
        ensure!(old == Some(i as u64 + 1), "update of {} returned {old:?}, expected {}", show(k), i + 1);
        upd += 1;
    }
    ensure!(t.len() == upto, "len() = {} after {upd} updates of {upto} keys", t.len());
    for (i, k) in ks[..upto].iter().enumerate() {
        let want = if i % 3 == 0 { off + i as u64 } else { i as u64 + 1 };
        let got = bounded(|| t.get(k)).map(|o| T::out_id(&o));
        ensure!(got == Some(want), "get({}) = {got:?} after updates, expected {want}", show(k));
    }
    ctx.count("keys", upto as u64);
    ctx.nontrivial = upto > 24 * 15;
    Ok(())
}

/// C02: distinct byte strings are distinct keys, whatever the insertion order.
pub fn identity<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut uni = match src.weighted(&[3, 3, 3, 2, 2, 2]) {
        0 => keys::zeros(src, 20),
        1 => keys::around(src),
        2 => {
            let n = 4 + src.idx(60);
            keys::strings(src, n)
        }
        3 => keys::chain(src, 40),
        4 => {
            let n = 2 + src.idx(40);
            keys::long(src, n)
        }
        _ => {
            let n = 4 + src.idx(60);
            keys::layers(src, n)
        }
    };
    if src.chance(2, 3) {
        let n = src.urange(1, 40);
        let more = keys::family(src, n);
        uni.extend(more);
    }
    let uni = keys::dedup(uni);
    let present: Vec<Key> = {
        let all = src.chance(1, 3);
        uni.iter().filter(|_| all || src.chance(2, 3)).cloned().collect()
    };
    let mut q: BTreeSet<Key> = uni.iter().cloned().collect();
    let mut near = Vec::new();
    for k in uni.iter().take(24) {
        neighbours(k, &mut near);
    }
    q.extend(near);
    let mut order_a = present.clone();
    let mut order_b = present.clone();
    let oa = keys::order(src, &mut order_a);
    let ob = keys::order(src, &mut order_b);
    ctx.say(|| format!("{} {} keys of {}: {} orders {oa}/{ob}\n", T::NAME, present.len(), uni.len(),
        present.iter().take(40).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    val::reset();
    let rank: BTreeMap<&Key, u64> =
        present.iter().enumerate().map(|(i, k)| (k, i as u64 + 1)).collect();
    let (a, b) = (T::new(), T::new());
    for (t, ord, off) in [(&a, &order_a, 0u64), (&b, &order_b, 1000)] {
        for (i, k) in ord.iter().enumerate() {
            let old = bounded(|| t.insert(k, rank[k] + off)).map(|o| T::out_id(&o));
            ensure!(
                old.is_none(),
                "insert({}) as key #{i} returned {old:?} although the key is new",
                show(k)
            );
            ensure!(t.len() == i + 1, "len() = {} after {} distinct inserts", t.len(), i + 1);
        }
    }
    for k in &q {
        let want = rank.get(k).copied();
        let ga = bounded(|| a.get(k)).map(|o| T::out_id(&o));
        let gb = bounded(|| b.get(k)).map(|o| T::out_id(&o) - 1000);
        ensure!(ga == want, "get({}) = {ga:?}, expected {want:?} (order {oa})", show(k));
        ensure!(gb == want, "get({}) = {gb:?}, expected {want:?} (order {ob})", show(k));
    }
    let same_slice = {
        let mut heads: BTreeMap<[u8; 8], usize> = BTreeMap::new();
        for k in &present {
            let mut h = [0u8; 8];
            let l = k.len().min(8);
            h[..l].copy_from_slice(&k[..l]);
            *heads.entry(h).or_insert(0) += 1;
        }
        heads.values().any(|&c| c > 1)
    };
    ctx.nontrivial = same_slice && present.len() > 2;
    ctx.count("queries", q.len() as u64);
    ctx.count("over_one_leaf", u64::from(present.len() > 24));
    Ok(())
}

/// C03: `len`/`is_empty` count distinct keys at every point of a sequential history.
pub fn counting<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let size = if src.chance(1, 6) { 1200 } else { 120 };
    let pool = keys::pool(src, size);
    let t = if src.chance(1, 2) { T::new() } else { T::default_() };
    val::reset();
    let mut have: BTreeSet<usize> = BTreeSet::new();
    ensure!(t.len() == 0 && t.is_empty(), "a new map reports len {}", t.len());
    let n = 1 + src.idx(if pool.len() > 200 { 2 * pool.len() } else { 300 });
    let sweep = src.chance(1, 2);
    let mut upd = 0u64;
    for i in 0..n {
        let k = if sweep && i < pool.len() { i } else { src.idx(pool.len().max(1)) };
        let Some(key) = pool.get(k) else { break };
        let id = (i % 8000) as u64 + 1;
        let read = src.chance(1, 8);
        if read {
            let got = bounded(|| t.get(key)).is_some();
            ensure!(got == have.contains(&k), "get({}) present={got}", show(key));
        } else {
            let fresh = have.insert(k);
            let old = bounded(|| t.insert(key, id)).map(|o| T::out_id(&o));
            ensure!(
                old.is_none() == fresh,
                "insert({}) returned {old:?}, key {} present",
                show(key),
                if fresh { "was not" } else { "was" }
            );
            upd += u64::from(!fresh);
        }
        ensure!(
            t.len() == have.len(),
            "len() = {} with {} distinct keys inserted (after {} of {})",
            t.len(), have.len(), if read { "get" } else { "insert" }, show(key)
        );
        ensure!(t.is_empty() == have.is_empty(), "is_empty() wrong with {} keys", have.len());
    }
    ctx.say(|| format!("{} {n} ops over {} keys, {} distinct, {upd} updates, e.g. {}\n", T::NAME, pool.len(),
        have.len(), pool.iter().take(5).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    ctx.nontrivial = upd > 0 && have.len() > 4;
    ctx.count("updates", upd);
    ctx.count("over_one_leaf", u64::from(have.len() > 24));
    Ok(())
}

/// C04: the Arc map, the inline map and the index map, driven through every calling style,
/// give the same answers.
pub fn variants(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use masstree::{MassTree, MassTree24Inline};
    let pool = keys::pool(src, 120);
    if pool.is_empty() {
        return Ok(());
    }
    val::reset();
    let arc: MassTree<Val> =
        if src.chance(1, 2) { <MassTree<Val> as Tree>::new() } else { MassTree::default() };
    let alt = MassTree::<Val>::with_allocator(masstree::SeizeAllocator24::new());
    let inl: MassTree24Inline<CVal> = MassTree24Inline::new();
    let mut idx: Index = if src.chance(1, 2) { Index::new() } else { Index::default() };
    let mut text: MassTree<String> = MassTree::new();
    let n = 1 + src.logu(250);
    let mut held: Option<seize::LocalGuard<'_>> = None;
    let mut updates = 0u64;
    for id in 1..=n {
        let k = src.pick(&pool);
        let write = src.chance(2, 3);
        let style = src.below(3);
        if style == 2 && held.is_none() {
            held = Some(arc.guard());
        }
        let (a, b, c, d, e) = if write {
            let a = match (&held, style) {
                (Some(g), 2) => bounded(|| arc.insert_g(k, id, g)),
                (_, 1) => {
                    let g = arc.guard();
                    bounded(|| arc.insert_g(k, id, &g))
                }
                _ => bounded(|| Tree::insert(&arc, k, id)),
            };
            let b = bounded(|| Tree::insert(&inl, k, id));
            let c = match bounded(|| idx.insert(k, CVal::mk(id))) {
                Ok(o) => o,
                Err(e) => fail!("index insert error {e:?}"),
            };
            let g = alt.guard();
            let d = bounded(|| alt.insert_g(k, id, &g));
            let e = match text.insert(k, id.to_string()) {
                Ok(o) => o.map(|s| s.parse::<u64>().unwrap()),
                Err(e) => fail!("insert error {e:?}"),
            };
            (a, b, c, d, e)
        } else {
            let a = match (&held, style) {
                (Some(g), 2) => bounded(|| arc.get_g(k, g)),
                _ => bounded(|| Tree::get(&arc, k)),
            };
            let g = alt.guard();
            (
                a,
                bounded(|| Tree::get(&inl, k)),
                bounded(|| idx.get(k)),
                bounded(|| alt.get_g(k, &g)),
                text.get(k).map(|s| s.parse::<u64>().unwrap()),
            )
        };
        let a = a.map(|o| o.id());
        let b = b.map(|o| o.id());
        let c = c.map(|o| o.id());
        let d = d.map(|o| o.id());
        updates += u64::from(write && a.is_some());
        ensure!(
            a == b && a == c && a == d && a == e,
            "{}({}) #{id}: MassTree {a:?}, MassTree24Inline {b:?}, MassTreeIndex {c:?}, \
             with_allocator {d:?}, MassTree<String> {e:?}",
            if write { "insert" } else { "get" },
            show(k)
        );
        let (la, lb, lc, ld, le) = (arc.len(), inl.len(), idx.len(), alt.len(), text.len());
        ensure!(
            la == lb && la == lc && la == ld && la == le,
            "len differs: MassTree {la} Inline {lb} Index {lc} with_allocator {ld} String {le}"
        );
        ensure!(
            arc.is_empty() == idx.is_empty() && inl.is_empty() == idx.is_empty(),
            "is_empty differs"
        );
        if held.is_some() && src.chance(1, 16) {
            held = None;
        }
    }
    for k in &pool {
        let g = inl.guard();
        let a = Tree::get(&arc, k).map(|o| o.id());
        let b = inl.get_ref(k, &g).map(Payload::id);
        let c = idx.get(k).map(|o| o.id());
        let g2 = text.guard();
        let e = text.get_ref(k, &g2).map(|s| s.parse::<u64>().unwrap());
        ensure!(a == b && a == c && a == e, "final {}: {a:?} {b:?} {c:?} {e:?}", show(k));
    }
    drop(held);
    let _ = &mut text;
    ctx.say(|| format!("{n} steps over {} keys, {updates} updates, {} keys e.g. {}\n", pool.len(), arc.len(),
        pool.iter().take(5).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    ctx.nontrivial = updates > 0 && arc.len() > 2;
    ctx.count("over_one_leaf", u64::from(arc.len() > 24));
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(64))]
struct Wide([u64; 9]);

/// C04: value types of unusual shape survive storage unchanged.
pub fn value_types(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use masstree::{MassTree, MassTree24Inline, MassTreeIndex};
    let pool = keys::pool(src, 80);
    let unit: MassTree<()> = MassTree::new();
    let unit_i: MassTree24Inline<()> = MassTree24Inline::new();
    let wide: MassTree24Inline<Wide> = MassTree24Inline::new();
    let wide_a: MassTree<Wide> = MassTree::new();
    let bytes: MassTree<Vec<u8>> = MassTree::new();
    let mut small: MassTreeIndex<u8> = MassTreeIndex::new();
    let int: MassTree24Inline<u64> = MassTree24Inline::new();
    let big: MassTree24Inline<i128> = MassTree24Inline::new();
    let opt: MassTree24Inline<Option<std::num::NonZeroU64>> = MassTree24Inline::new();
    let mut m: BTreeMap<Key, u64> = BTreeMap::new();
    let w = |x: u64| Wide(std::array::from_fn(|i| x.wrapping_mul(i as u64 + 3)));
    let n = 1 + src.logu(150);
    for i in 0..n {
        if pool.is_empty() {
            break;
        }
        let k = src.pick(&pool);
        // Values with the bit patterns an internal tag could collide with.
        let x = match src.weighted(&[3, 1, 1, 1]) {
            0 => i,
            1 => 0,
            2 => u64::MAX - src.below(3),
            _ => 1u64 << src.below(64),
        };
        let old = m.insert(k.clone(), x);
        let r = (
            unit.insert(k, ()).unwrap().is_some(),
            unit_i.insert(k, ()).unwrap().is_some(),
            wide.insert(k, w(x)).unwrap(),
            wide_a.insert(k, w(x)).unwrap().map(|a| *a),
            bytes.insert(k, x.to_le_bytes().repeat((x % 5) as usize + 1)).unwrap(),
            small.insert(k, x as u8).unwrap(),
            int.insert(k, x).unwrap(),
            big.insert(k, (x as i128) << 64 | !x as i128).unwrap(),
            opt.insert(k, std::num::NonZeroU64::new(x)).unwrap(),
        );
        ensure!(r.0 == old.is_some() && r.1 == old.is_some(), "unit value: insert({}) {r:?}", show(k));
        ensure!(r.2 == old.map(w) && r.3 == old.map(w), "64-aligned value: insert({}) {r:?}", show(k));
        ensure!(r.4.as_deref() == old.map(|x| x.to_le_bytes().repeat((x % 5) as usize + 1)).as_ref(),
            "byte vector: insert({}) {r:?}", show(k));
        ensure!(r.5 == old.map(|x| x as u8) && r.6 == old, "integers: insert({}) {r:?}", show(k));
        ensure!(r.7 == old.map(|x| (x as i128) << 64 | !x as i128), "i128: insert({}) {r:?}", show(k));
        ensure!(r.8 == old.map(std::num::NonZeroU64::new), "option: insert({}) {r:?}", show(k));
    }
    let g = wide.guard();
    for k in &pool {
        let x = m.get(k).copied();
        let got = wide.get_ref(k, &g);
        ensure!(got.copied() == x.map(w), "64-aligned get_ref({}) {got:?}", show(k));
        if let Some(p) = got {
            ensure!(std::ptr::from_ref(p).addr() % 64 == 0, "get_ref({}) is misaligned", show(k));
        }
        ensure!(unit.get(k).is_some() == x.is_some() && unit_i.get(k).is_some() == x.is_some(), "unit get({})", show(k));
        ensure!(int.get(k) == x, "u64 get({}) = {:?}, expected {x:?}", show(k), int.get(k));
        ensure!(small.get(k) == x.map(|x| x as u8), "u8 get({})", show(k));
        ensure!(opt.get(k) == x.map(std::num::NonZeroU64::new), "option get({})", show(k));
        ensure!(big.get(k) == x.map(|x| (x as i128) << 64 | !x as i128), "i128 get({})", show(k));
    }
    for l in [unit.len(), unit_i.len(), wide.len(), wide_a.len(), bytes.len(), small.len(), int.len(), opt.len(), big.len()] {
        ensure!(l == m.len(), "len() = {l}, expected {}", m.len());
    }
    ctx.say(|| format!("{n} inserts, {} keys e.g. {}\n", m.len(), m.keys().take(5).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    ctx.nontrivial = m.len() > 2;
    Ok(())
}

/// C10: a guard of another map either protects like the map's own or is refused without effect.
pub fn foreign<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    val::reset();
    let pool = keys::pool(src, 60);
    if pool.is_empty() {
        return Ok(());
    }
    let (t, u) = (T::new(), T::new());
    let mut m: BTreeMap<Key, u64> = BTreeMap::new();
    let mut next = 1u64;
    let (mut refused, mut taken) = (0u64, 0u64);
    let fill = src.urange(1, pool.len());
    for k in &pool[..fill] {
        bounded(|| t.insert(k, next));
        m.insert(k.clone(), next);
        next += 1;
    }
    let still = |held: &[(&T::P, u64, Key)]| -> CaseResult {
        for (r, id, k) in held {
            match r.intact() {
                Ok(i) if i == *id => {}
                other => fail!("reference to value {id} of {} now reads {other:?}", show(k)),
            }
            if T::ARC && val::drops(*id) > 0 {
                fail!("value {id} of {} was dropped while a reference was guarded", show(k));
            }
        }
        Ok(())
    };
    for _ in 0..1 + src.idx(3) {
        let g = t.guard();
        let mut mine: Vec<(&T::P, u64, Key)> = Vec::new();
        for _ in 0..1 + src.idx(4) {
            let f = u.guard();
            let mut theirs: Vec<(&T::P, u64, Key)> = Vec::new();
            for _ in 0..1 + src.logu(40) {
                let k = src.pick(&pool).clone();
                let want = m.get(&k).copied();
                match src.weighted(&[3, 2, 3, 4, 2, 1]) {
                    0 => {
                        if let Some(r) = bounded(|| t.get_ref(&k, &g)) {
                            ensure!(Some(r.id()) == want, "get_ref({}) = {}, expected {want:?}", show(&k), r.id());
                            mine.push((r, r.id(), k));
                        }
                    }
                    1 => match catch_unwind(AssertUnwindSafe(|| bounded(|| t.get_g(&k, &f).map(|o| T::out_id(&o))))) {
                        Ok(got) => {
                            taken += 1;
                            ensure!(got == want, "get_with_guard({}) with another map's guard gave {got:?}, expected {want:?}", show(&k));
                        }
                        Err(_) => refused += 1,
                    },
                    2 => match catch_unwind(AssertUnwindSafe(|| bounded(|| t.get_ref(&k, &f)))) {
                        Ok(got) => {
                            taken += 1;
                            ensure!(got.map(|r| r.id()) == want, "get_ref({}) with another map's guard gave another value than {want:?}", show(&k));
                            if let Some(r) = got {
                                theirs.push((r, r.id(), k));
                            }
                        }
                        Err(_) => refused += 1,
                    },
                    3 => {
                        let n = if src.chance(1, 3) { src.logu(60) } else { 1 };
                        for _ in 0..n {
                            let id = next;
                            next += 1;
                            let want = m.get(&k).copied();
                            let len = t.len();
                            match catch_unwind(AssertUnwindSafe(|| bounded(|| t.insert_g(&k, id, &f).map(|o| T::out_id(&o))))) {
                                Ok(got) => {
                                    taken += 1;
                                    ensure!(got == want, "insert({}) with another map's guard replaced {got:?}, expected {want:?}", show(&k));
                                    m.insert(k.clone(), id);
                                }
                                Err(_) => {
                                    refused += 1;
                                    ensure!(t.len() == len, "a refused insert changed the length");
                                    ensure!(!T::ARC || val::drops(id) == 1, "the value of a refused insert was dropped {} times", val::drops(id));
                                }
                            }
                        }
                    }
                    4 => {
                        for _ in 0..1 + src.logu(60) {
                            let id = next;
                            next += 1;
                            let got = bounded(|| t.insert(&k, id)).map(|o| T::out_id(&o));
                            let want = m.insert(k.clone(), id);
                            ensure!(got == want, "insert({}) replaced {got:?}, expected {want:?}", show(&k));
                        }
                    }
                    _ => {
                        // the other map gives up values of its own
                        for _ in 0..1 + src.logu(60) {
                            bounded(|| u.insert(&k, next));
                            next += 1;
                        }
                    }
                }
                sched::solo_budget(u64::MAX);
                still(&mine)?;
                still(&theirs)?;
            }
            drop(theirs);
            drop(f);
            still(&mine)?;
        }
    }
    for k in &pool {
        check_key(&t, k, m.get(k).copied(), "after calls with another map's guard")?;
    }
    ensure!(t.len() == m.len(), "len() = {}, expected {}", t.len(), m.len());
    drop((t, u));
    if T::ARC {
        for id in 1..next {
            ensure!(val::drops(id) == 1, "value {id} was dropped {} times in the end", val::drops(id));
        }
    }
    ctx.say(|| format!("{} calls with another map's guard: {taken} answered, {refused} refused; e.g. {}\n",
        T::NAME, pool.iter().take(5).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    ctx.count("foreign_answered", taken);
    ctx.count("foreign_refused", refused);
    ctx.nontrivial = taken + refused > 2;
    Ok(())
}

/// C05: every length up to 256 works, longer keys are refused and change nothing.
pub fn limits<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    val::reset();
    let t = T::new();
    let mut m: BTreeMap<Key, u64> = BTreeMap::new();
    let mut next = 1;
    let n = 1 + src.logu(60);
    let mut refused = 0;
    let mut longest = 0;
    for _ in 0..n {
        let len = match src.weighted(&[4, 3, 3, 2]) {
            0 => src.urange(0, 256),
            1 => 256 - src.idx(10),
            2 => 257 + src.logu(4000) as usize,
            _ => 8 * src.urange(0, 32),
        };
        let fill = *src.pick(b"k\0\xff");
        let mut k = vec![fill; len];
        if len > 0 && src.chance(1, 2) {
            let p = if src.chance(1, 2) { len - 1 } else { src.idx(len) };
            k[p] = k[p].wrapping_add(1 + src.byte() % 3);
        }
        let read = src.chance(1, 3);
        let via = src.below(3);
        let id = next;
        next += 1;
        let before = t.len();
        let r = catch_unwind(AssertUnwindSafe(|| {
            bounded(|| {
                let g = t.guard();
                match (read, via) {
                    (false, 0) => t.insert(&k, id).map(|o| T::out_id(&o)),
                    (false, _) => t.insert_g(&k, id, &g).map(|o| T::out_id(&o)),
                    (true, 0) => t.get(&k).map(|o| T::out_id(&o)),
                    (true, 1) => t.get_g(&k, &g).map(|o| T::out_id(&o)),
                    (true, _) => t.get_ref(&k, &g).map(Payload::id),
                }
            })
        }));
        sched::solo_budget(u64::MAX);
        if len <= 256 {
            let got = match r {
                Ok(v) => v,
                Err(e) => fail!("key of {len} bytes was refused: {}", kit::runner::panic_text(&*e)),
            };
            let want = if read { m.get(&k).copied() } else { m.insert(k.clone(), id) };
            ensure!(got == want, "{} of a {len}-byte key: {got:?}, expected {want:?}",
                if read { "get" } else { "insert" });
            longest = longest.max(len);
        } else {
            refused += 1;
            ensure!(r.is_err(), "{} accepted a {len}-byte key", if read { "get" } else { "insert" });
            ensure!(t.len() == before, "refused key changed len from {before} to {}", t.len());
            if T::ARC && !read {
                ensure!(val::drops(id) == 1, "value of a refused insert was dropped {} times", val::drops(id));
            }
        }
    }
    for (k, v) in &m {
        check_key(&t, k, Some(*v), "after refusals")?;
        if k.len() < 256 {
            let mut q = k.clone();
            q.resize(256, *k.last().unwrap_or(&0));
            check_key(&t, &q, m.get(&q).copied(), "after refusals")?;
        }
    }
    ensure!(t.len() == m.len(), "len() = {}, expected {}", t.len(), m.len());
    drop(t);
    ctx.say(|| format!("{} {n} ops, {} keys up to {longest} bytes, {refused} refused\n", T::NAME, m.len()));
    ctx.nontrivial = refused > 0 || longest >= 248;
    ctx.count("refused", refused);
    Ok(())
}

/// C10 (sequential part): a reference obtained under a guard keeps its value until the guard
/// ends, whatever is updated, split or moved meanwhile.
pub fn refs<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    val::reset();
    let pool = keys::pool(src, 100);
    if pool.is_empty() {
        return Ok(());
    }
    let t = T::new();
    let mut m: BTreeMap<Key, u64> = BTreeMap::new();
    let mut next = 1u64;
    let rounds = 1 + src.idx(6);
    let mut replaced_while_held = 0u64;
    for _ in 0..rounds {
        let g = t.guard();
        let mut held: Vec<(&T::P, u64, Key)> = Vec::new();
        let nops = 1 + src.logu(120);
        for _ in 0..nops {
            let k = src.pick(&pool).clone();
            match src.weighted(&[3, 2, 1]) {
                0 => {
                    let id = next;
                    next += 1;
                    let own = src.chance(1, 2);
                    let old = bounded(|| {
                        if own {
                            t.insert(&k, id)
                        } else {
                            t.insert_g(&k, id, &g)
                        }
                    });
                    let want = m.insert(k.clone(), id);
                    ensure!(old.map(|o| T::out_id(&o)) == want, "insert({}) wrong old value", show(&k));
                    if held.iter().any(|h| h.2 == k) {
                        replaced_while_held += 1;
                    }
                }
                1 => {
                    if let Some(r) = bounded(|| t.get_ref(&k, &g)) {
                        let want = m.get(&k).copied();
                        ensure!(Some(r.id()) == want, "get_ref({}) = {}, expected {want:?}", show(&k), r.id());
                        held.push((r, r.id(), k));
                    } else {
                        ensure!(!m.contains_key(&k), "get_ref({}) missed", show(&k));
                    }
                }
                _ => {
                    // churn: many updates from the same thread, to push reclamation
                    let c = src.logu(80);
                    for _ in 0..c {
                        let id = next;
                        next += 1;
                        bounded(|| t.insert(&k, id));
                        m.insert(k.clone(), id);
                    }
                    if c > 0 && held.iter().any(|h| h.2 == k) {
                        replaced_while_held += c;
                    }
                }
            }
            for (r, id, k) in &held {
                match r.intact() {
                    Ok(i) if i == *id => {}
                    other => fail!("reference to value {id} of {} now reads {other:?}", show(k)),
                }
                if T::ARC && val::drops(*id) > 0 {
                    fail!("value {id} of {} was dropped while a reference was guarded", show(k));
                }
            }
            if next > 8000 {
                break;
            }
        }
        if next > 8000 {
            break;
        }
    }
    ctx.say(|| format!("{} {rounds} guards, {} values, {replaced_while_held} replaced while held, e.g. {}\n",
        T::NAME, next, pool.iter().take(5).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    ctx.count("replaced_while_held", replaced_while_held);
    ctx.nontrivial = replaced_while_held > 0;
    Ok(())
}

/// C11 (sequential part): every value is dropped exactly once, never while reachable.
pub fn lifecycle<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    val::reset();
    let pool = keys::pool(src, 120);
    if pool.is_empty() {
        return Ok(());
    }
    let mut m: BTreeMap<Key, u64> = BTreeMap::new();
    let mut handles: Vec<(T::Out, u64)> = Vec::new();
    let mut next = 1u64;
    let mut replaced = 0u64;
    let t = T::new();
    let n = 1 + src.logu(400);
    let mut guard: Option<seize::LocalGuard<'_>> = None;
    for _ in 0..n {
        let k = src.pick(&pool).clone();
        match src.weighted(&[6, 2, 1, 1]) {
            0 => {
                let id = next;
                next += 1;
                let old = match &guard {
                    Some(g) => bounded(|| t.insert_g(&k, id, g)),
                    None => bounded(|| t.insert(&k, id)),
                };
                let want = m.insert(k.clone(), id);
                if let Some(o) = old {
                    replaced += 1;
                    let got = T::out_id(&o);
                    ensure!(Some(got) == want, "insert({}) returned {got}, expected {want:?}", show(&k));
                    if src.chance(1, 3) {
                        handles.push((o, got));
                    }
                } else {
                    ensure!(want.is_none(), "insert({}) lost {want:?}", show(&k));
                }
            }
            1 => {
                if let Some(o) = bounded(|| t.get(&k)) {
                    let id = T::out_id(&o);
                    handles.push((o, id));
                }
            }
            2 => {
                guard = if guard.is_some() { None } else { Some(t.guard()) };
            }
            _ => {
                if !handles.is_empty() {
                    let i = src.idx(handles.len());
                    handles.swap_remove(i);
                }
            }
        }
        for (o, id) in &handles {
            let got = T::out_id(o);
            ensure!(got == *id, "a held handle changed from {id} to {got}");
        }
    }
    if T::ARC {
        for (k, id) in &m {
            ensure!(val::drops(*id) == 0, "value {id} of {} dropped while in the map", show(k));
        }
        for (_, id) in &handles {
            ensure!(val::drops(*id) == 0, "value {id} dropped while a handle is held");
        }
        ensure!(val::double_drops() == 0, "a value was dropped twice");
    }
    drop(guard);
    let handles_first = src.chance(1, 2);
    if handles_first {
        handles.clear();
    }
    drop(t);
    for (o, id) in &handles {
        let got = T::out_id(o);
        ensure!(got == *id, "a handle held past the map changed from {id} to {got}");
    }
    let kept: BTreeSet<u64> = handles.iter().map(|h| h.1).collect();
    if T::ARC {
        for id in 1..next {
            let want = u8::from(!kept.contains(&id));
            let got = val::drops(id);
            ensure!(got == want, "value {id} dropped {got} times after the map ended, expected {want}");
        }
        handles.clear();
        for id in 1..next {
            let got = val::drops(id);
            ensure!(got == 1, "value {id} dropped {got} times in total");
        }
        ensure!(val::double_drops() == 0, "a value was dropped twice");
    }
    ctx.say(|| format!("{} {n} ops, {} values, {replaced} replaced, e.g. {}\n", T::NAME, next,
        pool.iter().take(5).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    ctx.nontrivial = replaced > 0 && m.len() > 1;
    ctx.count("values", next);
    ctx.count("over_one_leaf", u64::from(m.len() > 24));
    Ok(())
}

/// C13: dropping a map returns all its memory; updates leave no growing residue.
pub fn memory<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    warm::<T>();
    let size = if src.chance(1, 4) { 2500 } else { 200 };
    let pool = keys::pool(src, size);
    if pool.is_empty() {
        return Ok(());
    }
    let mut ks = pool.clone();
    let ord = keys::order(src, &mut ks);
    let picks: Vec<usize> = {
        let n = src.logu(3000) as usize;
        let mut r = kit::Rng::new(src.below(1 << 20));
        let span = 1 + src.idx(ks.len());
        (0..n).map(|_| r.below(span as u64) as usize).collect()
    };
    let hold = src.chance(1, 2);
    let (b0, n0) = kit::alloc::live();
    let (grown, peak);
    {
        let t = T::new();
        for (i, k) in ks.iter().enumerate() {
            let id = (i % 4000) as u64 + 1;
            bounded(|| t.insert(k, id));
        }
        let (b1, _) = kit::alloc::live();
        peak = b1 - b0;
        {
            let g = t.guard();
            for (i, &p) in picks.iter().enumerate() {
                let id = (i % 4000) as u64 + 1;
                if hold && i < 200 {
                    bounded(|| t.insert_g(&ks[p], id, &g));
                } else if !hold {
                    drop(bounded(|| t.insert(&ks[p], id)));
                }
            }
        }
        if hold {
            for (i, &p) in picks.iter().enumerate().skip(200) {
                bounded(|| t.insert(&ks[p], (i % 4000) as u64 + 1));
            }
        }
        let (b2, _) = kit::alloc::live();
        grown = b2 - b1;
    }
    let (b3, n3) = kit::alloc::live();
    ctx.say(|| format!("{} {} keys ({ord}), {} updates; map held {peak} bytes, updates kept {grown}\n",
        T::NAME, ks.len(), picks.len()));
    ensure!(
        b3 == b0 && n3 == n0,
        "dropping a map of {} keys and {} updates left {} bytes in {} blocks",
        ks.len(), picks.len(), b3 - b0, n3 - n0
    );
    // Retired values are reclaimed in batches, so a bounded number may still be waiting.
    ensure!(
        grown <= 160 * 1024,
        "{} updates of existing keys left {grown} bytes behind", picks.len()
    );
    ctx.nontrivial = ks.len() > 24 && !picks.is_empty();
    ctx.count("updates", picks.len() as u64);
    ctx.count("keys", ks.len() as u64);
    Ok(())
}

/// C12: at rest, the nodes form well-ordered trees that hold exactly what was inserted.
pub fn nodes<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let size = *src.pick(&[60usize, 60, 400, 2500]);
    let mut ks = keys::pool(src, size);
    if ks.is_empty() {
        return Ok(());
    }
    let ord = keys::order(src, &mut ks);
    ctx.say(|| format!("{} {} keys ({ord}), e.g. {}\n", T::NAME, ks.len(), ks.iter().take(6).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    val::reset();
    let t = T::new();
    let mut m: BTreeMap<Key, Option<u64>> = BTreeMap::new();
    let s = crate::walk::check(&t, &m)?;
    ensure!(s.leaves == 1 && s.inners == 0, "a new map has {} leaves and {} inner nodes", s.leaves, s.inners);
    // Small maps are walked after every insert.
    let every = if ks.len() <= 80 { 1 } else { 1 + src.idx(ks.len()) };
    let again = src.chance(1, 4);
    let mut id = 0;
    for pass in 0..=u8::from(again) {
        for (i, k) in ks.iter().enumerate() {
            id += 1;
            bounded(|| t.insert(k, id));
            m.insert(k.clone(), Some(id));
            if (i + 1) % every == 0 && (pass == 0 || every > 1) {
                crate::walk::check(&t, &m).map_err(|e| kit::Fail::new(format!("after {} keys, the last {}: {}", i + 1, show(k), e.msg)))?;
            }
        }
    }
    let s = crate::walk::check(&t, &m)?;
    ctx.nontrivial = s.inners > 0 || s.layers > 1;
    ctx.count("layers", s.layers);
    ctx.count("leaves", s.leaves);
    ctx.count("inner nodes", s.inners);
    ctx.count("two levels", u64::from(s.height > 1));
    Ok(())
}

/// Bound on the inner levels of one layer holding at most `n` keys.
fn levels(n: usize) -> u64 {
    let (mut l, mut c) = (1, 2);
    while c < n {
        c *= 7;
        l += 1;
    }
    l
}

/// C08: what one call costs depends on the key and the map's size, not on the history.
pub fn cost<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    warm::<T>();
    let max = if ctx.thorough { 12_000 } else { 3000 };
    let fam = src.below(4);
    let most = *src.pick(&[30u64, 30, 30, 30, 200]);
    let tail = src.logu(most) as usize;
    let mut ks = match fam {
        0 | 1 => {
            let n = 50 + src.logu(max) as usize;
            let start = src.u64() >> src.below(40);
            let stride = *src.pick(&[1u64, 1, 2, 256]);
            let pre = vec![b'p'; *src.pick(&[0usize, 0, 8, 16])];
            let mut v = keys::ints(&pre, start, stride, n);
            for (i, k) in v.iter_mut().enumerate() {
                k.extend((0..tail).map(|j| (i + j) as u8));
            }
            v
        }
        2 => {
            let n = 50 + src.logu(max) as usize;
            keys::dense(src, n, 40)
        }
        _ => keys::pool(src, 1000),
    };
    ks = keys::dedup(ks);
    if ks.is_empty() {
        return Ok(());
    }
    let ord = keys::order(src, &mut ks);
    let n = ks.len();
    let long = ks.iter().map(Vec::len).max().unwrap_or(0) as u64;
    ctx.say(|| format!("{} family {fam}: {n} keys of up to {long} bytes, {ord}, e.g. {}\n", T::NAME,
        ks.iter().take(3).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    let t = T::new();
    let h = levels(n);
    let passes = 1 + src.below(2);
    let start = kit::alloc::total_bytes();
    for _ in 0..passes {
        for (i, k) in ks.iter().enumerate() {
            let layers = k.len() as u64 / 8 + 1;
            let b = kit::alloc::total_bytes();
            sched::solo_budget(STEP_BUDGET);
            t.insert(k, (i % 4000) as u64 + 1);
            let steps = sched::solo_steps();
            sched::solo_budget(u64::MAX);
            let bytes = kit::alloc::total_bytes() - b;
            // About eight and six times the most seen on any history.
            let most = 48 * (400 + 72 * long) + 3000 * (layers + h);
            ensure!(bytes <= most, "insert number {i} ({}) allocated {bytes} bytes in a map of {n} keys of up to {long} bytes", show(k));
            let most = 500 * layers * (h + 1);
            ensure!(steps <= most, "insert number {i} ({}) took {steps} steps in a map of {n} keys with about {h} levels", show(k));
        }
    }
    let total = kit::alloc::total_bytes() - start;
    let most = passes * n as u64 * (1500 + 100 * long);
    ensure!(total <= most + 4000, "{n} keys of up to {long} bytes inserted {passes} times allocated {total} bytes in all");
    let g = t.guard();
    for k in &ks {
        let layers = k.len() as u64 / 8 + 1;
        for style in 0..2 {
            sched::solo_budget(STEP_BUDGET);
            if style == 0 {
                let _ = t.get_ref(k, &g);
            } else {
                drop(t.get_g(k, &g));
            }
            let steps = sched::solo_steps();
            sched::solo_budget(u64::MAX);
            ensure!(steps <= 100 * layers * (h + 1), "a lookup of {} took {steps} steps in a map of {n} keys with about {h} levels", show(k));
        }
    }
    ctx.nontrivial = n > 100;
    Ok(())
}

/// Thread-local and lazily created library state must exist before memory is compared.
pub fn warm<T: Tree>() {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    static DONE: AtomicBool = AtomicBool::new(false);
    if !DONE.swap(true, SeqCst) {
        for _ in 0..3 {
            let t = T::new();
            for i in 0..200u64 {
                t.insert(&i.to_be_bytes(), 1);
                t.insert(&i.to_be_bytes(), 2);
            }
        }
    }
    val::reset();
}
