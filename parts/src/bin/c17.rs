//! Suffix storage against a plain table of byte strings.
use kit::{CaseResult, Ctx, Src, Suite, ensure};
use masstree::leaf24::LeafNode24;
use masstree::permuter24::Permuter24;
use masstree::suffix::{PermutationProvider, SuffixBag};
use masstree::value::LeafValue;
use masstree::{MassTree, TreeLeafNode};
use parts::{arm, bytes, hex, words};

struct Active(Vec<usize>);
impl PermutationProvider for Active {
    fn size(&self) -> usize {
        self.0.len()
    }
    fn get(&self, i: usize) -> usize {
        self.0[i]
    }
}

fn suffix(src: &mut Src, pool: &[Vec<u8>]) -> Vec<u8> {
    let mut s = src.pick(pool).clone();
    match src.below(6) {
        0 => {
            s.push(*src.pick(b"\0a\xff"));
        }
        1 => {
            s.pop();
        }
        2 if !s.is_empty() => {
            let i = src.idx(s.len());
            s[i] ^= 1 << src.below(8);
        }
        _ => {}
    }
    s
}

fn table(m: &[Option<Vec<u8>>]) -> String {
    let mut s = String::new();
    for (i, x) in m.iter().enumerate() {
        if let Some(x) = x {
            s.push_str(&format!("{i}:{} ", hex(x)));
        }
    }
    s
}

fn agree<const W: usize>(b: &SuffixBag<W>, m: &[Option<Vec<u8>>], what: &str) -> CaseResult {
    let n = m.iter().flatten().count();
    ensure!(b.count() == n, "{what}: count {} of {n} suffixes: {}", b.count(), table(m));
    for (i, want) in m.iter().enumerate() {
        ensure!(b.has_suffix(i) == want.is_some() && b.get(i) == want.as_deref() && b.get_or_empty(i) == want.as_deref().unwrap_or(&[]),
            "{what}: slot {i} holds {:?}, expected {:?}", b.get(i).map(hex), want.as_deref().map(hex));
    }
    ensure!(b.used() <= b.capacity(), "{what}: {} bytes used of {}", b.used(), b.capacity());
    ensure!(b.used() >= m.iter().flatten().map(Vec::len).max().unwrap_or(0), "{what}: {} bytes used", b.used());
    Ok(())
}

fn bag<const W: usize>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let pool: Vec<Vec<u8>> = (0..4)
        .map(|_| {
            let max = if src.chance(1, 8) { 300 } else { 40 };
            bytes(src, max)
        })
        .collect();
    let mut b = match src.below(3) {
        0 => SuffixBag::<W>::new(),
        1 => SuffixBag::<W>::default(),
        _ => {
            let c = src.urange(0, 300);
            let b = SuffixBag::<W>::with_capacity(c);
            ensure!(b.capacity() >= c, "asked for {c} bytes of capacity, got {}", b.capacity());
            b
        }
    };
    let mut m: Vec<Option<Vec<u8>>> = vec![None; W];
    ensure!(b.used() == 0, "a new bag uses {} bytes", b.used());
    agree(&b, &m, "new")?;
    let (mut packs, mut refused, mut reused) = (0, 0, 0);
    for _ in 0..src.urange(1, 40) {
        let slot = src.idx(W);
        let op = src.weighted(&[6, 8, 3, 2, 2, 3, 1]);
        match op {
            0 => {
                let s = suffix(src, &pool);
                let before = b.used();
                b.assign(slot, &s);
                ctx.say(|| format!("assign {slot} {}; ", hex(&s)));
                ensure!(b.used() >= s.len() && b.used() <= before + s.len(), "assigning {} bytes took used from {before} to {}", s.len(), b.used());
                m[slot] = Some(s);
            }
            1 => {
                let s = suffix(src, &pool);
                let (u, c) = (b.used(), b.capacity());
                let ok = b.try_assign_in_place(slot, &s);
                ctx.say(|| format!("in place {slot} {} -> {ok}; ", hex(&s)));
                ensure!(b.capacity() == c, "an in-place assignment changed the capacity from {c} to {}", b.capacity());
                let fits = u + s.len() <= c || m[slot].as_ref().is_some_and(|o| s.len() <= o.len());
                ensure!(ok == fits, "in-place assignment of {} bytes to a slot of {:?} with {u} of {c} used returned {ok}",
                    s.len(), m[slot].as_ref().map(Vec::len));
                if ok {
                    reused += u64::from(b.used() == u && m[slot].is_some());
                    m[slot] = Some(s);
                } else {
                    refused += 1;
                    ensure!(b.used() == u, "a refused assignment changed the bytes used");
                }
            }
            2 => {
                b.clear(slot);
                ctx.say(|| format!("clear {slot}; "));
                m[slot] = None;
            }
            3 | 4 => {
                packs += 1;
                // Slots beyond the width are ignored; order is free.
                let mut act = src.perm(W);
                act.truncate(src.urange(0, W));
                let before = b.used();
                let freed;
                if op == 3 {
                    if src.chance(1, 4) {
                        act.push(W + src.idx(5));
                    }
                    freed = b.compact(act.iter().copied());
                    ctx.say(|| format!("compact {act:?}; "));
                } else {
                    let ex = match src.below(3) {
                        0 => None,
                        1 => Some(src.idx(W)),
                        _ => act.first().copied(),
                    };
                    freed = b.compact_with_permuter(&Active(act.clone()), ex);
                    ctx.say(|| format!("compact {act:?} but {ex:?}; "));
                    act.retain(|s| Some(*s) != ex);
                }
                for (i, x) in m.iter_mut().enumerate() {
                    if !act.contains(&i) {
                        *x = None;
                    }
                }
                let live: usize = m.iter().flatten().map(Vec::len).sum();
                ensure!(b.used() == live, "{} bytes used after compacting to {live} live ones", b.used());
                ensure!(freed == before - live, "compaction reports {freed} bytes, {before} became {live}");
            }
            5 => {
                let s = suffix(src, &pool);
                let eq = b.suffix_equals(slot, &s);
                let cmp = b.suffix_compare(slot, &s);
                ensure!(eq == (m[slot].as_ref() == Some(&s)), "suffix_equals({}) is {eq} in a slot holding {:?}", hex(&s), m[slot].as_deref().map(hex));
                ensure!(cmp == m[slot].as_ref().map(|x| x.cmp(&s)), "suffix_compare({}) is {cmp:?} in a slot holding {:?}", hex(&s), m[slot].as_deref().map(hex));
            }
            _ => {
                let mut c = b.clone();
                agree(&c, &m, "clone")?;
                // The copies are independent.
                if src.chance(1, 2) {
                    std::mem::swap(&mut b, &mut c);
                }
                c.assign(slot, b"other");
                c.compact(0..W);
            }
        }
        agree(&b, &m, "after the step")?;
    }
    ctx.nontrivial = packs + refused + reused > 0;
    ctx.count("compactions", packs);
    ctx.count("refused", refused);
    ctx.count("reused", reused);
    Ok(())
}

/// Suffixes too long for the metadata are refused without effect.
fn long(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut b = SuffixBag::<5>::new();
    let mut m: Vec<Option<Vec<u8>>> = vec![None; 5];
    ctx.nontrivial = true;
    for _ in 0..src.urange(1, 4) {
        let n = match src.below(4) {
            0 => 65535 - src.idx(3),
            1 => 65536 + src.idx(3),
            2 => src.urange(0, 140_000),
            _ => src.urange(0, 9),
        };
        let s: Vec<u8> = vec![src.byte(); n];
        let slot = src.idx(5);
        let place = src.chance(1, 2);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if place { b.try_assign_in_place(slot, &s) } else { b.assign(slot, &s); true }
        }));
        ctx.say(|| format!("{n} bytes to {slot} in place {place}; "));
        ensure!(r.is_err() == (n > 65535), "a suffix of {n} bytes was {}", if r.is_err() { "refused" } else { "accepted" });
        if matches!(r, Ok(true)) {
            m[slot] = Some(s);
        }
        agree(&b, &m, "after a long suffix")?;
    }
    Ok(())
}

/// What one leaf slot holds.
#[derive(Clone, Debug, PartialEq)]
enum Slot {
    Inline(u8),
    Suffix(Vec<u8>),
    Layer,
}

fn leaf(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    type Leaf = LeafNode24<LeafValue<u64>>;
    let host: MassTree<u64> = MassTree::new();
    let guard = host.guard();
    let n: Box<Leaf> = if src.chance(1, 2) { LeafNode24::new() } else { LeafNode24::new_root() };
    let pool: Vec<Vec<u8>> = (0..4)
        .map(|_| {
            let mut s = bytes(src, 60);
            if s.is_empty() {
                s.push(0);
            }
            s
        })
        .collect();
    let keys = words(src, 5);
    let mut m: Vec<Slot> = vec![Slot::Inline(0); 24];
    let mut ik = [0u64; 24];
    let mut layer = 0u64;
    ensure!(!n.has_ksuf_storage() && n.ksuf_ptr().is_null(), "a new leaf has suffix storage");
    let mut perm = Permuter24::empty();
    let mut order: Vec<usize> = Vec::new();
    let mut sufs = 0;
    for _ in 0..src.urange(1, 40) {
        let slot = src.idx(24);
        match src.weighted(&[8, 3, 3, 1, 2, 8]) {
            0 => {
                let mut s = suffix(src, &pool);
                if s.is_empty() {
                    s.push(1);
                }
                ctx.say(|| format!("suffix {slot} {}; ", hex(&s)));
                // SAFETY: single-threaded, guard of a live collector.
                unsafe {
                    if src.chance(1, 2) { n.assign_ksuf(slot, &s, &guard) } else { TreeLeafNode::assign_ksuf(&*n, slot, &s, &guard) }
                }
                m[slot] = Slot::Suffix(s);
                sufs += 1;
            }
            1 => {
                ctx.say(|| format!("clear {slot}; "));
                // SAFETY: as above.
                unsafe {
                    if src.chance(1, 2) { n.clear_ksuf(slot, &guard) } else { TreeLeafNode::clear_ksuf(&*n, slot, &guard) }
                }
                m[slot] = Slot::Inline(0);
            }
            2 => {
                let k = *src.pick(&keys);
                ik[slot] = k;
                n.set_ikey(slot, k);
                if !matches!(m[slot], Slot::Suffix(_)) || src.chance(1, 3) {
                    let l = src.below(9) as u8;
                    n.set_keylenx(slot, l);
                    m[slot] = Slot::Inline(l);
                    ctx.say(|| format!("inline {slot} {k:x}/{l}; "));
                }
            }
            3 => {
                let p: *mut u64 = &raw mut layer;
                n.set_keylenx(slot, 128);
                n.set_leaf_value_ptr(slot, p.cast());
                m[slot] = Slot::Layer;
                ctx.say(|| format!("layer {slot}; "));
            }
            4 => {
                // Make a random set of slots the active ones and drop the rest.
                perm = Permuter24::empty();
                order.clear();
                for _ in 0..src.urange(0, 24) {
                    let at = src.urange(0, order.len());
                    let s = masstree::TreePermutation::insert_from_back(&mut perm, at);
                    order.insert(at, s);
                }
                n.set_permutation(perm);
                let ex = if src.chance(1, 2) { None } else { Some(slot) };
                let had = n.has_ksuf_storage();
                // SAFETY: as above.
                unsafe {
                    n.compact_ksuf(ex, &guard);
                }
                ctx.say(|| format!("compact {order:?} but {ex:?}; "));
                ensure!(n.has_ksuf_storage() == had, "compaction changed whether there is storage");
                for (i, x) in m.iter_mut().enumerate() {
                    if matches!(x, Slot::Suffix(_)) && (!order.contains(&i) || ex == Some(i)) {
                        n.set_keylenx(i, 0);
                        *x = Slot::Inline(0);
                    }
                }
            }
            _ => {
                let k = if src.chance(2, 3) { ik[slot] } else { *src.pick(&keys) };
                let q: Vec<u8> = match (&m[slot], src.below(4)) {
                    (Slot::Suffix(s), 0 | 1) => s.clone(),
                    (_, 2) => Vec::new(),
                    _ => suffix(src, &pool),
                };
                // The query's length code, as the tree computes it.
                let code = if q.is_empty() { src.below(9) as u8 } else { 64 };
                let want_match = ik[slot] == k
                    && if q.is_empty() { !matches!(m[slot], Slot::Suffix(_)) } else { m[slot] == Slot::Suffix(q.clone()) };
                ensure!(n.ksuf_matches(slot, k, &q) == want_match && TreeLeafNode::ksuf_matches(&*n, slot, k, &q) == want_match,
                    "ksuf_matches({k:x}, {}) in a slot of {:x} {:?}", hex(&q), ik[slot], m[slot]);
                let want = match &m[slot] {
                    Slot::Layer => -8,
                    Slot::Suffix(s) => i32::from(!q.is_empty() && *s == q),
                    Slot::Inline(l) => i32::from(q.is_empty() && *l == code),
                };
                let got = n.ksuf_match_result(slot, code, &q);
                ensure!(got == want && TreeLeafNode::ksuf_match_result(&*n, slot, code, &q) == want,
                    "ksuf_match_result({code}, {}) = {got}, expected {want} in a slot of {:?}", hex(&q), m[slot]);
                let (we, wc) = match &m[slot] {
                    Slot::Suffix(s) => (*s == q, Some(s.cmp(&q))),
                    _ => (false, None),
                };
                ensure!(n.ksuf_equals(slot, &q) == we && TreeLeafNode::ksuf_equals(&*n, slot, &q) == we, "ksuf_equals({}) in {:?}", hex(&q), m[slot]);
                ensure!(n.ksuf_compare(slot, &q) == wc && TreeLeafNode::ksuf_compare(&*n, slot, &q) == wc, "ksuf_compare({}) in {:?}", hex(&q), m[slot]);
            }
        }
        for (i, x) in m.iter().enumerate() {
            let want = if let Slot::Suffix(s) = x { Some(s.as_slice()) } else { None };
            ensure!(n.ksuf(i) == want && TreeLeafNode::ksuf(&*n, i) == want && n.ksuf_or_empty(i) == want.unwrap_or(&[])
                    && TreeLeafNode::ksuf_or_empty(&*n, i) == want.unwrap_or(&[]),
                "slot {i} holds suffix {:?}, expected {:?}", n.ksuf(i).map(hex), want.map(hex));
            let code = match x {
                Slot::Inline(l) => *l,
                Slot::Suffix(_) => 64,
                Slot::Layer => 128,
            };
            ensure!(n.keylenx(i) == code && n.has_ksuf(i) == want.is_some() && n.is_layer(i) == (code == 128) && n.ikey(i) == ik[i],
                "slot {i} has key {:x} code {} suffix {} layer {}, expected {:x} {x:?}", n.ikey(i), n.keylenx(i), n.has_ksuf(i), n.is_layer(i), ik[i]);
        }
    }
    // Nothing the leaf drops may be the stand-in layer.
    for i in 0..24 {
        n.set_leaf_value_ptr(i, std::ptr::null_mut());
        if n.is_layer(i) {
            n.set_keylenx(i, 0);
        }
    }
    let _ = perm;
    ctx.nontrivial = sufs > 1;
    Ok(())
}

fn suites() -> Vec<Suite> {
    vec![Suite {
        id: "C17",
        rule: "bags: at least one compaction, refusal or reuse of space; leaves: at least two suffixes stored",
        arms: vec![
            arm("bag15", 1_200_000, 47_000_000, bag::<15>),
            arm("bag24", 900_000, 35_000_000, bag::<24>),
            arm("bag2", 900_000, 35_000_000, bag::<2>),
            arm("bag1", 400_000, 16_000_000, bag::<1>),
            arm("long", 2000, 78_000, long),
            arm("leaf", 500_000, 20_000_000, leaf),
        ],
        assumptions: vec!["slots passed are below the width; one thread holds the leaf"],
        pin: true,
        workers: 8,
    }]
}

fn main() {
    kit::runner::main(suites)
}
