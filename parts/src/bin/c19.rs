//! Leaf contents, splits and sibling links against a list of sorted runs.
use kit::{CaseResult, Ctx, Src, Suite, ensure};
use masstree::key::Key;
use masstree::leaf_trait::LayerCapableLeaf;
use masstree::leaf24::{LeafNode24, ModState24};
use masstree::value::{LeafValue, LeafValueIndex};
use masstree::{MassTree, Permuter24, TreeLeafNode, ValueSlot, is_marked};
use parts::{arm, hex, words};
use std::sync::Arc;

/// One entry as the reference keeps it; `rank` is 0..=8 for inline keys and 9 otherwise.
#[derive(Clone, Debug)]
struct Entry {
    ik: u64,
    rank: u8,
    suf: Vec<u8>,
    layer: bool,
    ptr: usize,
    id: u64,
}

fn show(m: &[Entry]) -> String {
    m.iter().map(|e| format!("{:x}/{}#{} ", e.ik, e.rank, e.id)).collect()
}

/// What differs between the leaf kinds.
trait Kind: ValueSlot<Value = u64, Output = Self::Out> + Send + Sync + 'static {
    type Out: Send + Sync;
    fn make(id: u64) -> (Self::Output, Option<Arc<u64>>);
    fn id(o: &Self::Output) -> u64;
}
impl Kind for LeafValue<u64> {
    type Out = Arc<u64>;
    fn make(id: u64) -> (Arc<u64>, Option<Arc<u64>>) {
        let a = Arc::new(id);
        (Arc::clone(&a), Some(a))
    }
    fn id(o: &Arc<u64>) -> u64 {
        **o
    }
}
impl Kind for LeafValueIndex<u64> {
    type Out = u64;
    fn make(id: u64) -> (u64, Option<Arc<u64>>) {
        (id, None)
    }
    fn id(o: &u64) -> u64 {
        *o
    }
}

/// The leaf's contents in order, against the reference.
fn agree<S: Kind>(n: &LeafNode24<S>, m: &[Entry], what: &str) -> CaseResult
where
    LeafNode24<S>: LayerCapableLeaf<S> + TreeLeafNode<S, Perm = Permuter24>,
{
    let p = TreeLeafNode::permutation(n);
    ensure!(p.size() == m.len() && TreeLeafNode::size(n) == m.len(), "{what}: {} entries, expected {}: {}", p.size(), m.len(), show(m));
    ensure!(TreeLeafNode::is_empty(n) == m.is_empty() && TreeLeafNode::is_full(n) == (m.len() == 24), "{what}: is_empty/is_full with {} entries", m.len());
    ensure!(!TreeLeafNode::is_permutation_frozen(n) && TreeLeafNode::permutation_raw(n) == p.value(), "{what}: permutation frozen or inconsistent");
    let mut seen = [false; 24];
    for i in 0..24 {
        let s = p.get(i);
        ensure!(s < 24 && !seen[s], "{what}: slot {s} twice in the permutation");
        seen[s] = true;
    }
    for (i, e) in m.iter().enumerate() {
        let s = p.get(i);
        let code = if e.layer { 128 } else if e.rank == 9 { 64 } else { e.rank };
        ensure!(n.ikey(s) == e.ik && n.keylenx(s) == code && n.is_layer(s) == e.layer && n.has_ksuf(s) == (code == 64),
            "{what}: position {i} slot {s} is {:x}/{}, expected {:x}/{code} in {}", n.ikey(s), n.keylenx(s), e.ik, show(m));
        let want = (code == 64).then_some(e.suf.as_slice());
        ensure!(n.ksuf(s) == want, "{what}: position {i} has suffix {:?}, expected {:?}", n.ksuf(s).map(hex), want.map(hex));
        ensure!(n.leaf_value_ptr(s) as usize == e.ptr && n.load_slot_value(s) as usize == e.ptr && !n.is_slot_empty(s), "{what}: position {i} has another value in {}", show(m));
        let v = n.try_clone_output(s);
        ensure!(v.as_ref().map(S::id) == (!e.layer).then_some(e.id), "{what}: position {i} reads value {:?}, expected {}{}", v.as_ref().map(S::id), e.id, if e.layer { " as a layer" } else { "" });
    }
    Ok(())
}

fn case<S: Kind>(src: &mut Src, ctx: &mut Ctx) -> CaseResult
where
    LeafNode24<S>: LayerCapableLeaf<S> + TreeLeafNode<S, Perm = Permuter24>,
{
    type Leaf<S> = LeafNode24<S>;
    let host: MassTree<u64> = MassTree::new();
    let guard = host.guard();
    let first: Box<Leaf<S>> = match src.below(3) {
        0 => TreeLeafNode::new_boxed(),
        1 => TreeLeafNode::new_root_boxed(),
        _ => TreeLeafNode::new_layer_root_boxed(),
    };
    let mut leaves: Vec<(*mut Leaf<S>, Vec<Entry>)> = vec![(Box::into_raw(first), Vec::new())];
    let mut arcs: Vec<(u64, Arc<u64>)> = Vec::new();
    let mut stand_ins: Vec<Box<u64>> = Vec::new();
    let nk = *src.pick(&[3usize, 6, 12, 30, 80]);
    let pool = words(src, nk);
    let mut sorted = pool.clone();
    sorted.sort_unstable();
    let style = src.below(3);
    let layers = src.chance(1, 2);
    let total = *src.pick(&[10usize, 26, 26, 40, 60, 90]);
    let (mut splits, mut grouped, mut moved_all) = (0, 0, 0);
    let mut next_id = 1u64;
    let mut run = |src: &mut Src, ctx: &mut Ctx, leaves: &mut Vec<(*mut Leaf<S>, Vec<Entry>)>, arcs: &mut Vec<(u64, Arc<u64>)>, stand_ins: &mut Vec<Box<u64>>| -> CaseResult {
        for step in 0..total {
            let ik = match style {
                0 => *src.pick(&pool),
                1 => sorted[(step / 3) % sorted.len()],
                _ => sorted[sorted.len() - 1 - (step / 3) % sorted.len()],
            };
            let rank = *src.pick(&[8u8, 9, 9, 0, 1, 2, 3, 4, 5, 6, 7]);
            // The leaf the tree would route to: the last one whose bound is not above the key.
            let at = leaves.iter().skip(1).take_while(|(l, _)| {
                // SAFETY: leaves live until the end of the case.
                unsafe { &**l }.ikey_bound() <= ik
            }).count();
            // SAFETY: as above.
            let n: &Leaf<S> = unsafe { &*leaves[at].0 };
            let pos = leaves[at].1.partition_point(|e| (e.ik, e.rank) < (ik, rank));
            if leaves[at].1.get(pos).is_some_and(|e| (e.ik, e.rank) == (ik, rank)) {
                continue;
            }
            let perm = TreeLeafNode::permutation(n);
            // The rule for the slot that carries the leaf's bound.
            let may = n.can_reuse_slot0(ik);
            ensure!(may == (at == 0 || n.ikey_bound() == ik), "can_reuse_slot0({ik:x}) = {may} in leaf {at} with bound {:x}", n.ikey_bound());
            let mut p = perm;
            if leaves[at].1.len() < 24 && p.back() == 0 && !may {
                let free = 24 - p.size();
                if let Some(o) = (1..free).find(|o| p.back_at_offset(*o) != 0) {
                    p.swap_free_slots(23, 23 - o);
                } else {
                    // Only the bound slot is free.
                    p = perm;
                }
            }
            let must = leaves[at].1.len() == 24 || (p.back() == 0 && !may);
            if must || (leaves[at].1.len() >= 2 && src.chance(1, 25)) {
                let m = leaves[at].1.clone();
                let got = TreeLeafNode::calculate_split_point(n, pos, ik);
                if let Some(sp) = &got {
                    ensure!(sp.pos > 0 && sp.pos < m.len(), "split point {} of {} entries", sp.pos, m.len());
                    ensure!(sp.split_ikey == m[sp.pos].ik, "split key {:x}, expected {:x} at {} of {}", sp.split_ikey, m[sp.pos].ik, sp.pos, show(&m));
                    ensure!(m[sp.pos - 1].ik < m[sp.pos].ik, "split at {} separates equal slices of {}", sp.pos, show(&m));
                } else {
                    ensure!(m.len() < 22, "no split point for inserting {ik:x} into {}", show(&m));
                }
                let Some(sp) = got else { continue };
                splits += 1;
                let mut at_pos = sp.pos;
                if src.chance(1, 4) {
                    // Any place between different slices must work.
                    let cuts: Vec<usize> = (1..m.len()).filter(|i| m[*i - 1].ik != m[*i].ik).collect();
                    at_pos = *src.pick(&cuts);
                }
                grouped += u64::from(m[at_pos..].windows(2).any(|w| w[0].ik == w[1].ik));
                let mut lock = n.version().lock();
                lock.mark_split();
                let fresh: Box<Leaf<S>> = TreeLeafNode::new_boxed();
                let all = src.chance(1, 12) && at == leaves.len() - 1;
                // SAFETY: the leaf is locked, the target is new.
                let (right, up, _) = unsafe {
                    if all { n.split_all_to_right_preallocated(fresh, &guard) } else { n.split_into_preallocated(at_pos, fresh, &guard) }
                };
                if all {
                    at_pos = 0;
                    moved_all += 1;
                }
                ctx.say(|| format!("split leaf {at} of {} at {at_pos}; ", m.len()));
                ensure!(up == m[at_pos].ik, "the split returned key {up:x}, expected {:x}", m[at_pos].ik);
                ensure!(right.version().is_locked() && right.version().is_splitting() && right.version().is_leaf() && !right.version().is_root(),
                    "the new sibling is not a split-locked plain leaf");
                ensure!(n.version().is_locked() && n.version().is_splitting(), "the split released the leaf's lock");
                let r: *mut Leaf<S> = Box::into_raw(right);
                let before = TreeLeafNode::safe_next(n);
                // SAFETY: both leaves live, the left one is locked.
                unsafe { TreeLeafNode::link_sibling(n, r) };
                // SAFETY: as above.
                let right = unsafe { &*r };
                ensure!(right.ikey_bound() == m[at_pos].ik, "the sibling's bound is {:x}, expected {:x}", right.ikey_bound(), m[at_pos].ik);
                ensure!(TreeLeafNode::safe_next(n) == r && !TreeLeafNode::next_is_marked(n) && TreeLeafNode::next_raw(n) == r,
                    "the leaf's next is not the new sibling, or still marked");
                ensure!(TreeLeafNode::safe_next(right) == before && !TreeLeafNode::next_is_marked(right), "the sibling's next is not the old next");
                ensure!(std::ptr::eq(TreeLeafNode::prev(right), n), "the sibling's prev is not the leaf");
                let rm = m[at_pos..].to_vec();
                agree(right, &rm, "right after split")?;
                agree(n, &m[..at_pos], "left after split")?;
                for s in (0..24).filter(|s| !(0..at_pos).any(|i| TreeLeafNode::permutation(n).get(i) == *s)) {
                    ensure!(n.leaf_value_ptr(s).is_null(), "slot {s} of the left leaf still points to a value that moved");
                }
                right.version().unlock_for_split();
                drop(lock);
                ensure!(!right.version().is_locked() && !n.version().is_locked(), "leaves still locked");
                leaves[at].1.truncate(at_pos);
                leaves.insert(at + 1, (r, rm));
                if all {
                    // The empty leaf keeps no bound; stop before inserting below it.
                    return Ok(());
                }
                continue;
            }
            // Insert as the tree does.
            let slot = p.back();
            let mut e = Entry { ik, rank, suf: Vec::new(), layer: false, ptr: 0, id: next_id };
            next_id += 1;
            if rank == 9 {
                let max = *src.pick(&[4usize, 12, 12, 12, 40]);
                let l = src.urange(1, max);
                let b = src.byte();
                e.suf = (0..l).map(|i| b.wrapping_add((i * i) as u8)).collect();
                e.layer = layers && src.chance(1, 4);
            }
            let mut lock = n.version().lock();
            lock.mark_insert();
            if e.layer {
                stand_ins.push(Box::new(e.id));
                let ptr: *mut u8 = (&raw mut **stand_ins.last_mut().unwrap()).cast();
                e.ptr = ptr as usize;
                n.set_ikey(slot, ik);
                n.set_leaf_value_ptr(slot, ptr);
                n.set_keylenx(slot, 128);
            } else {
                let (o, a) = S::make(e.id);
                let mut bytes = ik.to_be_bytes()[..usize::from(rank.min(8))].to_vec();
                bytes.extend(&e.suf);
                if bytes.len() < 8 && ik.to_be_bytes()[bytes.len()..].iter().any(|b| *b != 0) {
                    // The slice of a short key is padded with zeros; store other slices directly.
                    let ptr = S::output_consume_to_raw(o);
                    n.set_ikey(slot, ik);
                    n.set_leaf_value_ptr(slot, ptr);
                    n.set_keylenx(slot, rank);
                } else {
                    let k = Key::new(&bytes);
                    // SAFETY: locked, guard of a live collector.
                    unsafe { n.assign_from_key_arc(slot, &k, Some(o), &guard) };
                }
                e.ptr = n.leaf_value_ptr(slot) as usize;
                if let Some(a) = a {
                    ensure!(Arc::as_ptr(&a) as usize == e.ptr, "the slot does not hold the value it was given");
                    arcs.push((e.id, a));
                }
            }
            let got = p.insert_from_back(pos);
            ensure!(got == slot, "insert_from_back took slot {got}, back() was {slot}");
            TreeLeafNode::set_permutation(n, p);
            drop(lock);
            ctx.say(|| format!("leaf {at} slot {slot}: {ik:x}/{rank}{}; ", if e.layer { " layer" } else { "" }));
            leaves[at].1.insert(pos, e);
            agree(n, &leaves[at].1, "after insert")?;
        }
        Ok(())
    };
    let r = run(src, ctx, &mut leaves, &mut arcs, &mut stand_ins);
    let ends = (|| -> CaseResult {
        r?;
        let mut p = std::ptr::null_mut();
        let mut all: Vec<(u64, u8)> = Vec::new();
        for (i, (l, m)) in leaves.iter().enumerate() {
            // SAFETY: leaves live until freed below.
            let n = unsafe { &**l };
            agree(n, m, "at the end")?;
            ensure!(TreeLeafNode::prev(n) == p, "leaf {i}'s prev is not leaf {}", i as i64 - 1);
            let nx = leaves.get(i + 1).map_or(std::ptr::null_mut(), |x| x.0);
            ensure!(TreeLeafNode::safe_next(n) == nx && TreeLeafNode::next_raw(n) == nx, "leaf {i}'s next is not leaf {}", i + 1);
            p = *l;
            all.extend(m.iter().map(|e| (e.ik, e.rank)));
            // Marks on the link hide nothing.
            TreeLeafNode::mark_next(n);
            ensure!(TreeLeafNode::next_is_marked(n) && is_marked(TreeLeafNode::next_raw(n)) && TreeLeafNode::safe_next(n) == nx, "marking leaf {i}'s next changed it");
            TreeLeafNode::mark_next(n);
            ensure!(TreeLeafNode::safe_next(n) == nx, "marking leaf {i}'s next twice changed it");
            TreeLeafNode::unmark_next(n);
            ensure!(!TreeLeafNode::next_is_marked(n) && TreeLeafNode::next_raw(n) == nx, "unmarking leaf {i}'s next changed it");
        }
        ensure!(all.windows(2).all(|w| w[0] < w[1]), "entries out of order across leaves: {all:x?}");
        for (id, a) in &arcs {
            ensure!(Arc::strong_count(a) == 2, "value {id} has {} holders with one leaf holding it", Arc::strong_count(a) - 1);
        }
        Ok(())
    })();
    for (l, _) in leaves {
        // SAFETY: made by Box::into_raw above.
        drop(unsafe { Box::from_raw(l) });
    }
    ends?;
    for (id, a) in &arcs {
        ensure!(Arc::strong_count(a) == 1, "value {id} has {} holders after the leaves are gone", Arc::strong_count(a) - 1);
    }
    ctx.nontrivial = splits > 0;
    ctx.count("splits", splits);
    ctx.count("splits with equal slices", grouped);
    ctx.count("moved everything", moved_all);
    drop(stand_ins);
    Ok(())
}

/// Every accessor of a leaf, each time through the leaf itself or through the generic interface,
/// against plain arrays: an operation on one slot or link changes that slot or link.
fn fields(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    type Leaf = LeafNode24<LeafValue<u64>>;
    let kind = src.below(6);
    let mut n: Box<Leaf> = match kind {
        0 => Leaf::new(),
        1 => Leaf::new_root(),
        2 => Leaf::new_layer_root(),
        3 => TreeLeafNode::new_boxed(),
        4 => TreeLeafNode::new_root_boxed(),
        _ => TreeLeafNode::new_layer_root_boxed(),
    };
    let mut root = !matches!(kind, 0 | 3);
    ensure!(n.version().is_leaf() && n.version().is_root() == root && !n.version().is_dirty() && !n.version().is_locked() && !n.version().is_deleted(),
        "a new leaf has the wrong marks: root {} (kind {kind})", n.version().is_root());
    let mut ik = [0u64; 24];
    let mut lx = [0u8; 24];
    let mut val = [0usize; 24];
    let mut perm = Permuter24::empty();
    let (mut next, mut marked, mut prev, mut parent) = (0usize, false, 0usize, 0usize);
    let mut insert_state = true;
    let pool = words(src, 4);
    let steps = src.urange(1, 40);
    let mut kinds_used = 0u32;
    let mut run = || -> CaseResult {
        for _ in 0..steps {
            let s = src.idx(24);
            let own = src.chance(1, 2);
            let addr = 0x1000 + 16 * src.urange(0, 40);
            let k = src.weighted(&[5, 4, 4, 2, 4, 2, 3, 2, 2, 2, 2, 1, 1]);
            kinds_used |= 1 << k;
            let what = match k {
                0 => {
                    ik[s] = *src.pick(&pool);
                    if own { n.set_ikey(s, ik[s]) } else { TreeLeafNode::set_ikey(&*n, s, ik[s]) }
                    format!("set_ikey({s}, {:x})", ik[s])
                }
                1 => {
                    lx[s] = *src.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 64, 128, 129, 255]);
                    if own { n.set_keylenx(s, lx[s]) } else { TreeLeafNode::set_keylenx(&*n, s, lx[s]) }
                    format!("set_keylenx({s}, {})", lx[s])
                }
                2 => {
                    val[s] = addr;
                    if own { n.set_leaf_value_ptr(s, addr as *mut u8) } else { TreeLeafNode::set_leaf_value_ptr(&*n, s, addr as *mut u8) }
                    format!("set_leaf_value_ptr({s})")
                }
                3 => {
                    let got = if own { n.take_leaf_value_ptr(s) } else { TreeLeafNode::take_leaf_value_ptr(&*n, s) } as usize;
                    ensure!(got == val[s], "take_leaf_value_ptr({s}) gave {got:x}, the slot held {:x}", val[s]);
                    val[s] = 0;
                    format!("take_leaf_value_ptr({s})")
                }
                4 => {
                    let expected = match src.below(3) {
                        0 => 0,
                        1 => val[s],
                        _ => 0x1000 + 16 * src.urange(0, 40),
                    };
                    let r = if own {
                        n.cas_slot_value(s, expected as *mut u8, addr as *mut u8)
                    } else {
                        TreeLeafNode::cas_slot_value(&*n, s, expected as *mut u8, addr as *mut u8)
                    };
                    let want = if expected == val[s] { Ok(()) } else { Err(val[s]) };
                    ensure!(r.map_err(|p| p as usize) == want, "cas_slot_value({s}, {expected:x}) gave {r:?}, the slot held {:x}", val[s]);
                    if want.is_ok() {
                        val[s] = addr;
                    }
                    format!("cas_slot_value({s})")
                }
                5 => {
                    ik[s] = *src.pick(&pool);
                    lx[s] = src.urange(0, 8) as u8;
                    // SAFETY: one thread uses the leaf.
                    unsafe { if own { n.store_key_data_for_cas(s, ik[s], lx[s]) } else { TreeLeafNode::store_key_data_for_cas(&*n, s, ik[s], lx[s]) } }
                    format!("store_key_data_for_cas({s}, {:x}, {})", ik[s], lx[s])
                }
                6 => {
                    let mut new = perm;
                    if new.size() < 24 && src.chance(3, 4) {
                        let at = src.urange(0, new.size());
                        let _ = new.insert_from_back(at);
                    } else {
                        new.set_size(src.urange(0, 24));
                    }
                    let mut how = "set_permutation";
                    match src.below(4) {
                        0 => n.set_permutation(new),
                        1 => TreeLeafNode::set_permutation(&*n, new),
                        2 => {
                            how = "cas_permutation";
                            let r = n.cas_permutation(perm, new);
                            ensure!(r.is_ok(), "cas_permutation from the current permutation failed: {r:?}");
                        }
                        _ => {
                            how = "cas_permutation_raw";
                            ensure!(TreeLeafNode::cas_permutation_raw(&*n, perm, new).is_ok(), "cas_permutation_raw from the current permutation failed");
                        }
                    }
                    // From another permutation than the current one nothing is published.
                    let mut stale = new;
                    stale.set_size((new.size() + 1 + src.urange(0, 22)) % 25);
                    if stale.size() != new.size() && src.chance(1, 2) {
                        let cur = if own {
                            n.cas_permutation(stale, perm).err()
                        } else {
                            TreeLeafNode::cas_permutation_raw(&*n, stale, perm).err().map(|e| e.current())
                        };
                        ensure!(cur.map(|c| c.value()) == Some(new.value()), "publishing from another permutation than the current one reported {cur:?}");
                    }
                    perm = new;
                    how.into()
                }
                7 => {
                    next = if src.chance(1, 4) { 0 } else { addr };
                    marked = false;
                    if own { n.set_next(next as *mut Leaf) } else { TreeLeafNode::set_next(&*n, next as *mut Leaf) }
                    format!("set_next({next:x})")
                }
                8 => {
                    marked = src.chance(1, 2);
                    match (marked, own) {
                        (true, true) => n.mark_next(),
                        (true, false) => TreeLeafNode::mark_next(&*n),
                        (false, true) => n.unmark_next(),
                        (false, false) => TreeLeafNode::unmark_next(&*n),
                    }
                    format!("mark_next/unmark_next -> {marked}")
                }
                9 => {
                    prev = if src.chance(1, 4) { 0 } else { addr };
                    if own { n.set_prev(prev as *mut Leaf) } else { TreeLeafNode::set_prev(&*n, prev as *mut Leaf) }
                    format!("set_prev({prev:x})")
                }
                10 => {
                    parent = if src.chance(1, 4) { 0 } else { addr };
                    if own { n.set_parent(parent as *mut u8) } else { TreeLeafNode::set_parent(&*n, parent as *mut u8) }
                    format!("set_parent({parent:x})")
                }
                11 => {
                    n.make_layer_root();
                    (root, parent) = (true, 0);
                    "make_layer_root".into()
                }
                _ => {
                    insert_state = src.chance(1, 2);
                    n.set_modstate(if insert_state { ModState24::Insert } else { ModState24::DeletedLayer });
                    "set_modstate".into()
                }
            };
            ctx.say(|| format!("{what}{}; ", if own { "" } else { " (generic)" }));
            for i in 0..24 {
                ensure!(n.ikey(i) == ik[i] && TreeLeafNode::ikey(&*n, i) == ik[i], "after {what}: slot {i} has key {:x}, expected {:x}", n.ikey(i), ik[i]);
                ensure!(n.keylenx(i) == lx[i] && TreeLeafNode::keylenx(&*n, i) == lx[i], "after {what}: slot {i} has length {}, expected {}", n.keylenx(i), lx[i]);
                let (layer, suf) = (lx[i] >= 128, lx[i] == 64);
                ensure!(n.is_layer(i) == layer && TreeLeafNode::is_layer(&*n, i) == layer && Leaf::keylenx_is_layer(lx[i]) == layer
                    && n.has_ksuf(i) == suf && TreeLeafNode::has_ksuf(&*n, i) == suf && Leaf::keylenx_has_ksuf(lx[i]) == suf,
                    "after {what}: slot {i} of length code {} counts as layer {} suffix {}", lx[i], n.is_layer(i), n.has_ksuf(i));
                ensure!(n.ksuf(i).is_none() && TreeLeafNode::ksuf_or_empty(&*n, i).is_empty() && !n.ksuf_equals(i, b"") && n.ksuf_compare(i, b"").is_none(),
                    "after {what}: slot {i} has a suffix nobody stored");
                let v = [n.leaf_value_ptr(i), TreeLeafNode::leaf_value_ptr(&*n, i), n.load_slot_value(i), TreeLeafNode::load_slot_value(&*n, i)];
                ensure!(v.iter().all(|p| *p as usize == val[i]) && n.is_slot_empty(i) == (val[i] == 0), "after {what}: slot {i} holds {v:?}, expected {:x}", val[i]);
                if val[i] == 0 || layer {
                    ensure!(n.try_clone_output(i).is_none(), "after {what}: slot {i} without a value gives one");
                }
            }
            ensure!(n.load_all_ikeys() == ik, "after {what}: load_all_ikeys gave {:x?}, expected {ik:x?}", n.load_all_ikeys());
            let q = *src.pick(&pool);
            let mask: u32 = (0..24).filter(|i| ik[*i] == q).map(|i| 1u32 << i).sum();
            ensure!(TreeLeafNode::find_ikey_matches(&*n, q) == mask, "after {what}: find_ikey_matches({q:x}) = {:x}, expected {mask:x}", TreeLeafNode::find_ikey_matches(&*n, q));
            let size = perm.size();
            ensure!(n.permutation().value() == perm.value() && TreeLeafNode::permutation(&*n).value() == perm.value()
                && n.permutation_raw() == perm.value() && TreeLeafNode::permutation_raw(&*n) == perm.value(), "after {what}: another permutation");
            ensure!(n.size() == size && TreeLeafNode::size(&*n) == size && n.is_empty() == (size == 0) && TreeLeafNode::is_empty(&*n) == (size == 0)
                && n.is_full() == (size == 24) && TreeLeafNode::is_full(&*n) == (size == 24), "after {what}: size, is_empty or is_full with {size} entries");
            ensure!(!TreeLeafNode::is_perm_frozen(&*n) && !TreeLeafNode::is_permutation_frozen(&*n)
                && TreeLeafNode::permutation_try(&*n).map(|p| p.value()) == Ok(perm.value()) && TreeLeafNode::permutation_wait(&*n).value() == perm.value(),
                "after {what}: an ordinary permutation counts as frozen");
            ensure!(n.ikey_bound() == ik[0] && TreeLeafNode::ikey_bound(&*n) == ik[0] && (size == 0 || n.keylenx_bound() == lx[perm.get(0)]), "after {what}: the bound is not that of the first slot, or its length not that of the first entry");
            let may = prev == 0 || ik[0] == q;
            ensure!(n.can_reuse_slot0(q) == may && TreeLeafNode::can_reuse_slot0(&*n, q) == may, "after {what}: can_reuse_slot0({q:x}) with bound {:x}, prev {prev:x}", ik[0]);
            ensure!(n.safe_next() as usize == next && TreeLeafNode::safe_next(&*n) as usize == next
                && n.next_raw() as usize == next | usize::from(marked) && TreeLeafNode::next_raw(&*n) as usize == next | usize::from(marked)
                && n.next_is_marked() == marked && TreeLeafNode::next_is_marked(&*n) == marked, "after {what}: next is {:?}, expected {next:x} marked {marked}", n.next_raw());
            ensure!(n.prev() as usize == prev && TreeLeafNode::prev(&*n) as usize == prev, "after {what}: prev is {:?}, expected {prev:x}", n.prev());
            ensure!(n.parent() as usize == parent && TreeLeafNode::parent(&*n) as usize == parent, "after {what}: parent is {:?}, expected {parent:x}", n.parent());
            ensure!(n.version().is_root() == root && n.version().is_leaf() && !n.version().is_locked() && !n.version().is_dirty(), "after {what}: the version's marks changed");
            ensure!((n.modstate() == ModState24::Insert) == insert_state, "after {what}: another modification state");
            if !marked {
                if own { n.wait_for_split() } else { TreeLeafNode::wait_for_split(&*n) }
            }
            // A split point lies between two different keys and keeps both sides non-empty.
            let at = src.urange(0, size);
            let keys: Vec<u64> = (0..size).map(|i| ik[perm.get(i)]).collect();
            if keys.windows(2).all(|w| w[0] <= w[1]) {
                match TreeLeafNode::calculate_split_point(&*n, at, q) {
                    Some(sp) => ensure!(sp.pos > 0 && sp.pos < size && sp.split_ikey == keys[sp.pos] && keys[sp.pos - 1] < keys[sp.pos],
                        "split point {} with key {:x} for {keys:x?}", sp.pos, sp.split_ikey),
                    None => ensure!(size < 2 || keys.windows(2).any(|w| w[0] == w[1]), "no split point for the distinct keys {keys:x?}"),
                }
            }
        }
        Ok(())
    };
    let r = run();
    // The stand-ins for values are no values.
    for i in 0..24 {
        n.set_leaf_value_ptr(i, std::ptr::null_mut());
    }
    r?;
    ctx.nontrivial = kinds_used.count_ones() >= 4;
    Ok(())
}

fn suites() -> Vec<Suite> {
    parts::hook();
    vec![Suite {
        id: "C19",
        rule: "at least one split (fields arm: at least four kinds of operation)",
        arms: vec![
            arm("shared", 1_300_000, 83_000_000, case::<LeafValue<u64>>),
            arm("inline", 1_300_000, 83_000_000, case::<LeafValueIndex<u64>>),
            arm("fields", 450_000, 45_000_000, fields),
        ],
        assumptions: vec!["entries are inserted at their sorted position by one thread that holds the leaf's lock, as the tree does",
            "a leaf of at least 22 entries with at most 11 equal slices can always be split; smaller ones may refuse"],
        pin: true,
        workers: 8,
    }]
}

fn main() {
    kit::runner::main(suites)
}
