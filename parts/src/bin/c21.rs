//! What threads do to one leaf without holding its lock: publishing a permutation by
//! compare-and-swap, freezing it, claiming slots, linking siblings.
use kit::{CaseResult, Ctx, Src, Suite, ensure, fail, sched};
use masstree::leaf_trait::{FreezeGuardOps, TreePermutation};
use masstree::leaf24::LeafNode24;
use masstree::value::LeafValue;
use masstree::{Permuter24, TreeLeafNode};
use parts::{arm, plan, plan_text, stopped};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

type Leaf = LeafNode24<LeafValue<u64>>;
type Job = Box<dyn FnOnce() + Send>;

fn spin() {
    sched::yield_point(sched::EV_SPIN, 0, std::panic::Location::caller());
}

fn pause() {
    sched::yield_point(sched::EV_LOAD, 0, std::panic::Location::caller());
}

fn perm_ok(p: &Permuter24, what: &str) -> CaseResult {
    ensure!(p.size() <= 24, "{what}: size {}", p.size());
    let mut seen = [false; 24];
    for i in 0..24 {
        let s = p.get(i);
        ensure!(s < 24 && !seen[s], "{what}: slot {s} twice or out of range");
        seen[s] = true;
    }
    Ok(())
}

/// The word without the bits above the last slot, which carry nothing.
fn word(raw: u128) -> u128 {
    raw & ((1 << 125) - 1)
}

fn text(p: &Permuter24) -> String {
    let mut s = format!("{}:", p.size());
    for i in 0..24 {
        if i == p.size() {
            s.push('|');
        }
        s.push_str(&format!("{:x}.", p.get(i)));
    }
    s
}

#[derive(Clone, Copy, Debug)]
enum Act {
    /// Insert one slot at position `pos` (mod size + 1); wait for or skip a frozen word.
    Publish { pos: usize, wait: bool },
    /// Publish from a permutation read some steps ago, once.
    Late { pos: usize, pauses: usize },
    /// Lock, mark, freeze, hold for some steps; end by storing a changed permutation or by dropping.
    Freeze { holds: usize, keep: Option<usize> },
    Wait,
    Try,
}

#[derive(Default)]
struct Log {
    /// Successful changes, each from one word to another.
    edges: Vec<(u128, u128)>,
    /// Words returned by readers.
    reads: Vec<u128>,
    published: usize,
    dropped: usize,
    failed: usize,
    frozen_seen: usize,
    errs: Vec<String>,
}

fn publication(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.urange(2, 4);
    let freezers = src.chance(4, 5);
    // Without freezes the leaf's own exchange may be used too, which does not expect them.
    let own = !freezers && src.chance(1, 2);
    let acts: Vec<Vec<Act>> = (0..n)
        .map(|_| {
            (0..src.urange(1, 4))
                .map(|_| match src.weighted(&[5, 3, if freezers { 4 } else { 0 }, 2, 2]) {
                    0 => Act::Publish { pos: src.urange(0, 23), wait: src.chance(1, 2) },
                    1 => Act::Late { pos: src.urange(0, 23), pauses: src.urange(0, 6) },
                    2 => Act::Freeze { holds: src.urange(0, 6), keep: if src.chance(2, 3) { Some(src.urange(0, 24)) } else { None } },
                    3 => Act::Wait,
                    _ => Act::Try,
                })
                .collect()
        })
        .collect();
    let leaf: Box<Leaf> = match src.below(2) {
        0 => TreeLeafNode::new_boxed(),
        _ => TreeLeafNode::new_root_boxed(),
    };
    let fill = *src.pick(&[0usize, 1, 2, 8, 15, 22]);
    let mut start = Permuter24::empty();
    for _ in 0..fill {
        let p = src.urange(0, start.size());
        let _ = start.insert_from_back(p);
    }
    leaf.set_permutation(start);
    let p = plan(src, n, 40);
    ctx.say(|| format!("from {} {acts:?} own {own} {}", text(&start), plan_text(&p)));
    let leaf: &'static Leaf = Box::leak(leaf);
    let log: Arc<Mutex<Log>> = Arc::default();
    let mut jobs: Vec<Job> = Vec::new();
    for list in acts.clone() {
        let log = Arc::clone(&log);
        jobs.push(Box::new(move || {
            let err = |e: String| log.lock().unwrap().errs.push(e);
            let attempt = |old: Permuter24, pos: usize| -> bool {
                if old.size() >= 24 {
                    return true;
                }
                let (new, slot) = old.insert_from_back_immutable(pos % (old.size() + 1));
                if new.size() != old.size() + 1 || new.get(pos % (old.size() + 1)) != slot {
                    err(format!("inserting at {pos} into {} gave {}", text(&old), text(&new)));
                }
                if own {
                    let r = leaf.cas_permutation(old, new);
                    let mut l = log.lock().unwrap();
                    return match r {
                        Ok(()) => {
                            l.edges.push((word(old.value()), word(new.value())));
                            l.published += 1;
                            true
                        }
                        Err(cur) => {
                            l.failed += 1;
                            if cur.value() == old.value() {
                                l.errs.push(format!("a publication failed although the word was the expected {:x}", cur.value()));
                            }
                            l.reads.push(cur.value());
                            false
                        }
                    };
                }
                match TreeLeafNode::cas_permutation_raw(leaf, old, new) {
                    Ok(()) => {
                        let mut l = log.lock().unwrap();
                        l.edges.push((word(old.value()), word(new.value())));
                        l.published += 1;
                        true
                    }
                    Err(e) => {
                        let cur = e.current();
                        let mut l = log.lock().unwrap();
                        l.failed += 1;
                        let frozen = Permuter24::is_frozen_raw(cur.value());
                        if e.is_frozen() != frozen {
                            l.errs.push(format!("a failed publication reports frozen = {} with {:x}", e.is_frozen(), cur.value()));
                        }
                        if word(cur.value()) == word(old.value()) && cur.value() == old.value() {
                            l.errs.push(format!("a publication failed although the word was the expected {:x}", cur.value()));
                        }
                        if !frozen {
                            l.reads.push(cur.value());
                        }
                        false
                    }
                }
            };
            for act in list {
                match act {
                    Act::Publish { pos, wait } => loop {
                        let old = if wait {
                            Some(leaf.permutation_wait_())
                        } else {
                            TreeLeafNode::permutation_try(leaf).ok()
                        };
                        let Some(old) = old else {
                            log.lock().unwrap().frozen_seen += 1;
                            spin();
                            continue;
                        };
                        if attempt(old, pos) {
                            break;
                        }
                        spin();
                    },
                    Act::Late { pos, pauses } => {
                        let Ok(old) = TreeLeafNode::permutation_try(leaf) else { continue };
                        for _ in 0..pauses {
                            pause();
                        }
                        let _ = attempt(old, pos);
                    }
                    Act::Freeze { holds, keep } => {
                        let mut g = leaf.version().lock();
                        g.mark_split();
                        let f = TreeLeafNode::freeze_permutation(leaf);
                        let snap = f.snapshot();
                        let raw = f.snapshot_raw();
                        if raw != snap.value() || Permuter24::is_frozen_raw(raw) {
                            err(format!("the snapshot of a freeze is {raw:x} / {}", text(&snap)));
                        }
                        log.lock().unwrap().reads.push(raw);
                        for _ in 0..=holds {
                            let now = TreeLeafNode::permutation_raw(leaf);
                            if !TreeLeafNode::is_permutation_frozen(leaf) || TreeLeafNode::permutation_try(leaf).is_ok() {
                                err("a frozen permutation is not reported as frozen".into());
                            }
                            if word(now) != word(Permuter24::freeze_raw(raw)) {
                                err(format!("the frozen word changed from {raw:x} to {now:x}"));
                            }
                            pause();
                        }
                        match keep {
                            Some(k) => {
                                let mut new = snap;
                                let k = k.min(snap.size());
                                new.set_size(k);
                                {
                                    // Before the store: once it is visible others may build on it.
                                    let mut l = log.lock().unwrap();
                                    if word(raw) != word(new.value()) {
                                        l.edges.push((word(raw), word(new.value())));
                                    }
                                    l.dropped += snap.size() - k;
                                }
                                TreeLeafNode::unfreeze_set_permutation(leaf, f, new);
                            }
                            None => drop(f),
                        }
                        drop(g);
                    }
                    Act::Wait => {
                        let p = leaf.permutation_wait_();
                        log.lock().unwrap().reads.push(p.value());
                    }
                    Act::Try => match TreeLeafNode::permutation_try(leaf) {
                        Ok(p) => log.lock().unwrap().reads.push(p.value()),
                        Err(()) => log.lock().unwrap().frozen_seen += 1,
                    },
                }
            }
        }));
    }
    let out = sched::run(jobs, p, 200_000, 20_000, false);
    if let Err(e) = stopped(&out) {
        fail!("{e}");
    }
    let end = TreeLeafNode::permutation_raw(leaf);
    let frozen = TreeLeafNode::is_permutation_frozen(leaf);
    let last = TreeLeafNode::permutation(leaf);
    let locked = leaf.version().is_locked() || leaf.version().is_dirty();
    // SAFETY: leaked above; every thread has finished.
    drop(unsafe { Box::from_raw(std::ptr::from_ref(leaf).cast_mut()) });
    let l = log.lock().unwrap();
    if let Some(e) = l.errs.first() {
        fail!("{e}");
    }
    ensure!(!frozen && !locked, "the leaf stays frozen or locked");
    perm_ok(&last, "at the end")?;
    ensure!(last.size() + l.dropped == fill + l.published,
        "{fill} entries, {} published and {} dropped leave {}", l.published, l.dropped, last.size());
    // The changes form one walk from the first word to the last: every word is left as often as
    // it is entered, except at the ends.
    let mut deg: BTreeMap<u128, i64> = BTreeMap::new();
    for (a, b) in &l.edges {
        *deg.entry(*a).or_insert(0) += 1;
        *deg.entry(*b).or_insert(0) -= 1;
    }
    *deg.entry(word(start.value())).or_insert(0) -= 1;
    *deg.entry(word(end)).or_insert(0) += 1;
    for (v, d) in &deg {
        ensure!(*d == 0, "the word {v:x} was left {} times more than entered: a publication was lost or started from an old word", d);
    }
    for r in &l.reads {
        let p = Permuter24::from_value(*r);
        ensure!(!Permuter24::is_frozen_raw(*r), "a reader was given the frozen word {r:x}");
        perm_ok(&p, "a reader's permutation")?;
        ensure!(word(*r) == word(start.value()) || l.edges.iter().any(|(_, b)| *b == word(*r)), "a reader was given {r:x}, which was never published");
    }
    ctx.count("switches", out.switches);
    ctx.count("published", l.published as u64);
    ctx.count("failed publications", l.failed as u64);
    ctx.count("frozen reads", l.frozen_seen as u64);
    ctx.nontrivial = out.switches >= 1 && l.edges.len() >= 2;
    Ok(())
}

trait WaitPerm {
    fn permutation_wait_(&self) -> Permuter24;
}
impl WaitPerm for Leaf {
    fn permutation_wait_(&self) -> Permuter24 {
        TreeLeafNode::permutation_wait(self)
    }
}

#[derive(Clone, Copy, Debug)]
enum SlotAct {
    /// Claim an empty slot.
    Claim(usize),
    /// Replace what is seen in the slot.
    Swap(usize),
    /// Take the slot's value out.
    Take(usize),
    Look(usize),
}

/// Every pointer put into a slot comes out exactly once.
fn slots(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.urange(2, 4);
    let k = src.urange(1, 3);
    let chosen: Vec<usize> = (0..k).map(|_| src.urange(0, 23)).collect();
    let takes = src.chance(1, 2);
    let acts: Vec<Vec<SlotAct>> = (0..n)
        .map(|_| {
            (0..src.urange(1, 5))
                .map(|_| {
                    let s = *src.pick(&chosen);
                    match src.weighted(&[4, 3, if takes { 1 } else { 0 }, 1]) {
                        0 => SlotAct::Claim(s),
                        1 => SlotAct::Swap(s),
                        2 => SlotAct::Take(s),
                        _ => SlotAct::Look(s),
                    }
                })
                .collect()
        })
        .collect();
    // A take is a plain exchange by the lock's holder in the tree: only one thread takes.
    let taker = src.below(n as u64) as usize;
    let p = plan(src, n, 20);
    ctx.say(|| format!("slots {chosen:?} {acts:?} {}", plan_text(&p)));
    let leaf: Box<Leaf> = TreeLeafNode::new_boxed();
    let leaf: &'static Leaf = Box::leak(leaf);
    // (slot, pointer put in) and (slot, pointer that came out).
    type Moves = (Vec<(usize, usize)>, Vec<(usize, usize)>, Vec<String>, u64);
    let log: Arc<Mutex<Moves>> = Arc::default();
    let mut jobs: Vec<Job> = Vec::new();
    for (t, list) in acts.into_iter().enumerate() {
        let log = Arc::clone(&log);
        jobs.push(Box::new(move || {
            for (i, act) in list.into_iter().enumerate() {
                let mine = 0x1000 + ((t << 8) + i) * 16;
                match act {
                    SlotAct::Claim(s) => match TreeLeafNode::cas_slot_value(leaf, s, std::ptr::null_mut(), mine as *mut u8) {
                        Ok(()) => log.lock().unwrap().0.push((s, mine)),
                        Err(cur) => {
                            let mut l = log.lock().unwrap();
                            l.3 += 1;
                            if cur.is_null() {
                                l.2.push("claiming an empty slot failed and reported it empty".into());
                            }
                        }
                    },
                    SlotAct::Swap(s) => {
                        let old = TreeLeafNode::load_slot_value(leaf, s);
                        if old.is_null() {
                            continue;
                        }
                        match TreeLeafNode::cas_slot_value(leaf, s, old, mine as *mut u8) {
                            Ok(()) => {
                                let mut l = log.lock().unwrap();
                                l.0.push((s, mine));
                                l.1.push((s, old as usize));
                            }
                            Err(cur) => {
                                let mut l = log.lock().unwrap();
                                l.3 += 1;
                                if cur == old {
                                    l.2.push("a slot exchange failed and reported the expected pointer".into());
                                }
                            }
                        }
                    }
                    SlotAct::Take(s) => {
                        if t != taker {
                            continue;
                        }
                        let old = TreeLeafNode::take_leaf_value_ptr(leaf, s);
                        if !old.is_null() {
                            log.lock().unwrap().1.push((s, old as usize));
                        }
                    }
                    SlotAct::Look(s) => {
                        let a = TreeLeafNode::leaf_value_ptr(leaf, s) as usize;
                        if a != 0 && (a < 0x1000 || a % 16 != 0) {
                            log.lock().unwrap().2.push(format!("slot {s} holds {a:x}, which nobody stored"));
                        }
                    }
                }
            }
        }));
    }
    let out = sched::run(jobs, p, 100_000, 20_000, false);
    if let Err(e) = stopped(&out) {
        fail!("{e}");
    }
    let mut left: Vec<(usize, usize)> = Vec::new();
    for s in 0..24 {
        let v = TreeLeafNode::take_leaf_value_ptr(leaf, s) as usize;
        if v != 0 {
            left.push((s, v));
        }
    }
    let again = (0..24).any(|s| !leaf.is_slot_empty(s));
    // SAFETY: leaked above; every thread has finished and the slots are empty.
    drop(unsafe { Box::from_raw(std::ptr::from_ref(leaf).cast_mut()) });
    ensure!(!again, "a slot holds a value after it was taken");
    let mut l = log.lock().unwrap();
    if let Some(e) = l.2.first() {
        fail!("{e}");
    }
    let contended = l.3;
    let mut ins = std::mem::take(&mut l.0);
    let mut outs = std::mem::take(&mut l.1);
    outs.extend(left);
    ins.sort_unstable();
    outs.sort_unstable();
    ensure!(ins == outs, "put in {ins:x?}, came out {outs:x?}");
    ctx.count("lost races", contended);
    ctx.count("switches", out.switches);
    ctx.nontrivial = out.switches >= 1 && ins.len() >= 2;
    Ok(())
}

/// Threads link new siblings into one chain while others walk it.
fn links(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.urange(2, 4);
    let base = src.urange(1, 4);
    // Per thread: after which existing leaf to link, or a walk.
    let acts: Vec<Vec<Option<usize>>> = (0..n)
        .map(|t| (0..src.urange(1, 3)).map(|_| if t == 0 || src.chance(2, 3) { Some(src.urange(0, base - 1)) } else { None }).collect())
        .collect();
    let locked = src.chance(1, 4);
    let p = plan(src, n, 30);
    ctx.say(|| format!("{base} leaves, {acts:?} locked {locked} {}", plan_text(&p)));
    let make = || -> usize {
        let b: Box<Leaf> = TreeLeafNode::new_boxed();
        Box::into_raw(b) as usize
    };
    let at = |a: usize| -> &'static Leaf {
        // SAFETY: every address below is a leaf that lives until the end of the case.
        unsafe { &*(a as *const Leaf) }
    };
    let chain: Vec<usize> = (0..base).map(|_| make()).collect();
    for w in chain.windows(2) {
        at(w[0]).set_next(w[1] as *mut Leaf);
        at(w[1]).set_prev(w[0] as *mut Leaf);
    }
    // Completed links: (after, new).
    let done: Arc<Mutex<Vec<(usize, usize)>>> = Arc::default();
    let errs: Arc<Mutex<Vec<String>>> = Arc::default();
    let mut all = chain.clone();
    let mut jobs: Vec<Job> = Vec::new();
    for list in &acts {
        let news: Vec<usize> = list.iter().map(|_| make()).collect();
        all.extend(&news);
        let (list, chain, done, errs) = (list.clone(), chain.clone(), Arc::clone(&done), Arc::clone(&errs));
        jobs.push(Box::new(move || {
            for (act, new) in list.into_iter().zip(news) {
                match act {
                    Some(i) => {
                        let l = at(chain[i]);
                        let g = locked.then(|| l.version().lock());
                        // SAFETY: `new` is fresh and owned by this thread.
                        unsafe { TreeLeafNode::link_sibling(l, new as *mut Leaf) };
                        drop(g);
                        done.lock().unwrap().push((chain[i], new));
                    }
                    None => {
                        let before = done.lock().unwrap().clone();
                        let mut seen = Vec::new();
                        let mut a = chain[0];
                        while a != 0 && seen.len() < 64 {
                            seen.push(a);
                            a = TreeLeafNode::safe_next(at(a)) as usize;
                            if a & 1 == 1 {
                                errs.lock().unwrap().push("the next pointer of a leaf is given out marked".into());
                                return;
                            }
                        }
                        // Everything that was in the chain is met, in order.
                        let mut old = chain.iter();
                        let mut want = old.next();
                        for s in &seen {
                            if Some(s) == want {
                                want = old.next();
                            }
                        }
                        if want.is_some() {
                            errs.lock().unwrap().push("a walk missed a leaf of the first chain".into());
                        }
                        for (_, new) in before {
                            if !seen.contains(&new) {
                                errs.lock().unwrap().push("a walk missed a leaf that was linked before it began".into());
                            }
                        }
                        let mut u = seen.clone();
                        u.sort_unstable();
                        u.dedup();
                        if u.len() != seen.len() {
                            errs.lock().unwrap().push("a walk met a leaf twice".into());
                        }
                    }
                }
            }
        }));
    }
    let out = sched::run(jobs, p, 100_000, 20_000, false);
    let r = (|| -> CaseResult {
        if let Err(e) = stopped(&out) {
            fail!("{e}");
        }
        if let Some(e) = errs.lock().unwrap().first() {
            fail!("{e}");
        }
        let name = |a: usize| match all.iter().position(|x| *x == a) {
            Some(i) => format!("L{i}"),
            None => format!("{a:x}"),
        };
        let mut seq = Vec::new();
        let (mut a, mut prev) = (chain[0], 0usize);
        while a != 0 && seq.len() <= all.len() {
            ensure!(all.contains(&a), "the chain leads to {a:x}, which is no leaf (marked link)");
            ensure!(!TreeLeafNode::next_is_marked(at(a)) && TreeLeafNode::next_raw(at(a)) == TreeLeafNode::safe_next(at(a)), "leaf {} keeps a marked link", name(a));
            let back = TreeLeafNode::prev(at(a)) as usize;
            ensure!(back == prev, "leaf {} follows {} but points back to {}", name(a), name(prev), name(back));
            seq.push(a);
            prev = a;
            a = TreeLeafNode::next_raw(at(a)) as usize;
        }
        let linked = done.lock().unwrap().clone();
        ensure!(seq.len() == chain.len() + linked.len(), "{} leaves linked to {} give a chain of {}", linked.len(), chain.len(), seq.len());
        // Each new leaf stands behind its own leaf, before that one's old neighbour.
        for (after, new) in &linked {
            let pos = |x: usize| seq.iter().position(|y| *y == x).unwrap_or(usize::MAX);
            let i = chain.iter().position(|x| x == after).unwrap();
            let hi = chain.get(i + 1).map_or(usize::MAX, |x| pos(*x));
            ensure!(pos(*new) > pos(*after) && pos(*new) < hi, "leaf {} linked after {} stands elsewhere", name(*new), name(*after));
        }
        ctx.nontrivial = out.switches >= 1 && linked.len() >= 2;
        Ok(())
    })();
    ctx.count("switches", out.switches);
    if !out.lost {
        for a in all {
            // SAFETY: made by Box::into_raw above; every thread has finished.
            drop(unsafe { Box::from_raw(a as *mut Leaf) });
        }
    }
    r
}

fn suites() -> Vec<Suite> {
    parts::hook();
    vec![Suite {
        id: "C21",
        rule: "at least one switch and two changes of the word, the slots or the chain",
        arms: vec![
            arm("publication", 2_600_000, 170_000_000, publication),
            arm("slots", 1_800_000, 120_000_000, slots),
            arm("links", 1_800_000, 120_000_000, links),
        ],
        assumptions: vec!["freezing happens under the leaf's lock with a split marked, as the functions require",
            "interleavings of atomic operations, sequentially consistent"],
        pin: true,
        workers: 8,
    }]
}

fn main() {
    kit::runner::main(suites)
}
