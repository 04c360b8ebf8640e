//! Node version locks: what a lock, an unlock and a comparison with an earlier version say.
use kit::{CaseResult, Ctx, Src, Suite, ensure, fail, sched};
use masstree::nodeversion::{LockGuard, NodeVersion, SingleThreadedNodeVersion};
use parts::{arm, plan, plan_text, stopped};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What a version must report.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Model {
    leaf: bool,
    root: bool,
    deleted: bool,
    /// Completed lock sections, split and deletion sections, and other sections since the last of those.
    sections: u64,
    splits: u64,
    since: u64,
}

#[derive(Clone, Copy)]
struct Snap {
    value: u32,
    m: Model,
}

fn check(v: &NodeVersion, m: &Model, what: &str) -> CaseResult {
    ensure!(v.is_leaf() == m.leaf && v.is_root() == m.root && v.is_deleted() == m.deleted,
        "{what}: leaf {} root {} deleted {}, expected {m:?}", v.is_leaf(), v.is_root(), v.is_deleted());
    Ok(())
}

/// Compare with every earlier stable version. `open` is what the section in progress marked.
fn compare(v: &NodeVersion, m: &Model, snaps: &[Snap], locked: bool, split: bool, what: &str) -> CaseResult {
    for s in snaps {
        let flags = m.leaf != s.m.leaf || m.root != s.m.root || m.deleted != s.m.deleted;
        let changed = flags || m.sections != s.m.sections || split;
        let got = v.has_changed(s.value);
        ensure!(got == changed, "{what}: has_changed since {:?} = {got}, now {m:?} splitting {split}", s.m);
        let got = v.has_changed_or_locked(s.value);
        ensure!(got == (changed || locked), "{what}: has_changed_or_locked since {:?} = {got}, now {m:?} locked {locked}", s.m);
        for got in [v.has_split(s.value), v.simple_has_split(s.value)] {
            if flags || m.splits != s.m.splits {
                ensure!(got, "{what}: has_split since {:?} = false, now {m:?}", s.m);
            } else if m.since < 60 {
                ensure!(!got, "{what}: has_split since {:?} = true, now {m:?}", s.m);
            }
        }
    }
    Ok(())
}

fn sequential(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let leaf = src.chance(1, 2);
    let v = NodeVersion::new(leaf);
    let mut st = SingleThreadedNodeVersion::new(leaf);
    let mut m = Model { leaf, root: false, deleted: false, sections: 0, splits: 0, since: 0 };
    let mut snaps: Vec<Snap> = Vec::new();
    let mut st_snaps: Vec<(u32, u32)> = Vec::new();
    let n = if src.chance(1, 20) { src.urange(60, 400) } else { src.urange(1, 30) };
    let mut sections = 0;
    for _ in 0..n {
        ensure!(!v.is_locked() && !v.is_dirty() && !v.is_inserting() && !v.is_splitting() && !v.is_split_locked(), "idle version is locked or dirty");
        check(&v, &m, "idle")?;
        compare(&v, &m, &snaps, false, false, "idle")?;
        match src.weighted(&[3, 1, 1, 8]) {
            0 => {
                let s = v.stable();
                ensure!(s == v.value(), "stable() of an idle version differs from its value");
                ensure!(s & 7 == 0, "stable() returned a dirty or locked version");
                if snaps.len() < 6 {
                    snaps.push(Snap { value: s, m });
                    st_snaps.push((s, st.stable()));
                } else {
                    let i = src.idx(6);
                    snaps[i] = Snap { value: s, m };
                    st_snaps[i] = (s, st.stable());
                }
            }
            1 => {
                v.mark_root();
                st.mark_root();
                m.root = true;
                ctx.say(|| "root; ".into());
            }
            2 => {
                v.mark_nonroot();
                st.mark_nonroot();
                m.root = false;
                ctx.say(|| "nonroot; ".into());
            }
            _ => {
                sections += 1;
                let style = src.below(4);
                let mut g: LockGuard<'_> = match style {
                    0 => v.lock(),
                    1 => v.lock_with_yield(),
                    2 => match v.try_lock() {
                        Some(g) => g,
                        None => fail!("try_lock of an idle version failed"),
                    },
                    _ => match v.try_lock_for(Duration::from_secs(src.below(2))) {
                        Some(g) => g,
                        None => fail!("try_lock_for of an idle version failed"),
                    },
                };
                let mut sg = st.lock();
                ensure!(v.is_locked() && v.is_inserting() && v.is_dirty() && !v.is_splitting(), "a locked version is not locked and dirty");
                ensure!(g.locked_value() == v.value(), "locked_value() differs from the value");
                ensure!(v.try_lock().is_none(), "a second lock was granted");
                ensure!(src.chance(9, 10) || v.try_lock_for(Duration::ZERO).is_none(), "a second lock was granted");
                compare(&v, &m, &snaps, true, false, "locked")?;
                let mut split = false;
                ctx.say(|| format!("lock{style}: "));
                for _ in 0..src.weighted(&[5, 4, 3, 1]) {
                    match src.weighted(&[3, 4, 1, 1]) {
                        0 => {
                            g.mark_insert();
                            sg.mark_insert();
                            ctx.say(|| "insert ".into());
                        }
                        1 => {
                            g.mark_split();
                            sg.mark_split();
                            split = true;
                            ctx.say(|| "split ".into());
                        }
                        2 => {
                            g.mark_deleted();
                            sg.mark_deleted();
                            split = true;
                            m.deleted = true;
                            ctx.say(|| "deleted ".into());
                        }
                        _ => {
                            g.mark_nonroot();
                            sg.mark_nonroot();
                            m.root = false;
                            ctx.say(|| "nonroot ".into());
                        }
                    }
                    ensure!(v.is_locked() && v.is_inserting() && v.is_splitting() == split && v.is_split_locked() == split,
                        "marks lost: locked {} inserting {} splitting {}", v.is_locked(), v.is_inserting(), v.is_splitting());
                    check(&v, &m, "locked")?;
                    compare(&v, &m, &snaps, true, split, "locked")?;
                    ensure!(v.try_lock().is_none(), "a second lock was granted");
                    if src.chance(1, 3) {
                        let sib = NodeVersion::new_for_split(&v);
                        ensure!(sib.is_leaf() == leaf && !sib.is_root() && !sib.is_deleted() && sib.is_locked() && sib.is_splitting() && sib.is_split_locked(),
                            "split sibling {:x} of {:x}", sib.value(), v.value());
                        ensure!(sib.try_lock().is_none(), "a split sibling can be locked before it is released");
                        let before = sib.value();
                        sib.unlock_for_split();
                        ensure!(!sib.is_locked() && !sib.is_dirty() && sib.is_leaf() == leaf && !sib.is_root() && !sib.is_deleted(),
                            "released split sibling {:x}", sib.value());
                        ensure!(sib.has_split(before & !7) && sib.has_changed(before & !7), "releasing a split sibling did not count as a split");
                        ensure!(sib.stable() == sib.value() && sib.try_lock().is_some(), "a released split sibling cannot be used");
                    }
                }
                if src.chance(1, 10) {
                    // The lock is released even when its holder panics.
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _g = g;
                        std::panic::resume_unwind(Box::new(0u8));
                    }));
                    ensure!(r.is_err(), "no panic");
                    ctx.say(|| "panic; ".into());
                } else {
                    drop(g);
                    ctx.say(|| "; ".into());
                }
                drop(sg);
                m.sections += 1;
                if split {
                    m.splits += 1;
                    m.since = 0;
                    m.root = false;
                } else {
                    m.since += 1;
                }
            }
        }
        // The single-threaded twin reports the same.
        ensure!(st.is_leaf() == v.is_leaf() && st.is_root() == v.is_root() && st.is_deleted() == v.is_deleted(), "the single-threaded version's flags differ");
        for (a, b) in &st_snaps {
            ensure!(st.has_changed(*b) == v.has_changed(*a) && st.has_split(*b) == v.has_split(*a),
                "the single-threaded version compares differently ({:x} since {b:x}, {:x} since {a:x})", st.stable(), v.value());
        }
        let c = v.clone();
        ensure!(c.value() == v.value() && std::ptr::eq(v.as_ptr(), &raw const v), "clone or address differs");
    }
    ctx.nontrivial = sections > 1 && !snaps.is_empty();
    ctx.count("sections", sections);
    Ok(())
}

/// Counters near their limits carry into nothing else.
fn limits(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // Bits 3 to 27 count; 29, 30 and 31 are flags.
    let counters = match src.below(4) {
        0 => (1 << 25) - 1 - src.below(4),
        1 => (src.below(1 << 19) << 6) | (63 - src.below(3)),
        2 => ((1 << 19) - 1 - src.below(2)) << 6 | src.below(64),
        _ => src.below(1 << 25),
    } as u32;
    let flags = (src.below(8) as u32) << 29;
    let v = NodeVersion::from_value(flags | counters << 3);
    let (leaf, mut root, mut deleted) = (flags >> 31 & 1 == 1, flags >> 30 & 1 == 1, flags >> 29 & 1 == 1);
    let mut seen = vec![v.stable()];
    ctx.say(|| format!("start {:x}: ", v.value()));
    for _ in 0..src.urange(1, 8) {
        let kind = src.below(3);
        {
            let mut g = v.lock();
            match kind {
                0 => {}
                1 => {
                    g.mark_split();
                    root = false;
                }
                _ => {
                    g.mark_deleted();
                    (root, deleted) = (false, true);
                }
            }
        }
        ctx.say(|| format!("{kind} -> {:x} ", v.value()));
        ensure!(!v.is_locked() && !v.is_dirty(), "unlocked version {:x} is locked or dirty", v.value());
        ensure!((v.is_leaf(), v.is_root(), v.is_deleted()) == (leaf, root, deleted),
            "flags leaf {} root {} deleted {}, expected {leaf} {root} {deleted}", v.is_leaf(), v.is_root(), v.is_deleted());
        for s in &seen {
            ensure!(v.has_changed(*s) && v.has_changed_or_locked(*s), "a section between {s:x} and {:x} is not seen", v.value());
            ensure!(kind == 0 || v.has_split(*s), "a split between {s:x} and {:x} is not seen", v.value());
        }
        seen.push(v.stable());
        ensure!(v.try_lock().is_some(), "unlocked version {:x} cannot be locked", v.value());
        let _ = seen.pop();
        seen.push(v.stable());
        let (a, b) = (v.value(), v.clone().stable());
        ensure!(a == b, "stable differs from value");
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Long runs of sections, so that every counter overflows several times: no flag changes,
/// no overflow stays behind, and each section is still seen.
fn wraps(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let leaf = src.chance(1, 2);
    let n = src.urange(1, 3);
    let v = NodeVersion::new(leaf);
    let mut st = SingleThreadedNodeVersion::new(leaf);
    let mut total = 0u64;
    ctx.say(|| format!("leaf {leaf}: "));
    for _ in 0..n {
        let splits = src.chance(3, 4);
        let len = if splits { (1 << 19) * src.range(1, 3) + src.below(4) } else { src.range(1, 1 << 12) };
        // Every `gap` sections the flags, the comparisons and a lock attempt are checked in full.
        let gap = src.range(1, 1000);
        let mixed = src.chance(1, 3);
        let root = src.chance(1, 4);
        if root {
            v.mark_root();
            st.mark_root();
        }
        ctx.say(|| format!("{len} {}, checked every {gap}{}; ", if splits { "splits" } else { "inserts" }, if root { ", root first" } else { "" }));
        for i in 0..len {
            let before = v.value();
            {
                let mut g = v.lock();
                let mut sg = st.lock();
                if splits {
                    g.mark_split();
                    sg.mark_split();
                } else {
                    g.mark_insert();
                }
            }
            let now = v.value();
            total += 1;
            if i % gap == 0 || i + 4 > len || i < 2 || v.is_deleted() || v.is_leaf() != leaf {
                ensure!(v.is_leaf() == leaf && !v.is_deleted() && v.is_root() == (root && !splits) && !v.is_locked() && !v.is_dirty(),
                    "after {total} sections: {now:x}, was {before:x}");
                ensure!(v.has_changed(before) && v.has_changed_or_locked(before) && !v.has_changed_or_locked(now) && (!splits || v.has_split(before)),
                    "section {total} from {before:x} to {now:x} is not seen");
                ensure!(st.is_leaf() == leaf && !st.is_deleted() && st.is_root() == v.is_root(), "after {total} sections the single-threaded twin has other flags");
                // A lock attempt counts as a section of the other kind, so not every run has them.
                if !mixed && i + 1 < len {
                    continue;
                }
                match v.try_lock() {
                    Some(g) => drop(g),
                    None => fail!("after {total} sections {now:x} cannot be locked"),
                }
                drop(st.lock());
            }
        }
        if root && !splits {
            v.mark_nonroot();
            st.mark_nonroot();
        }
    }
    ctx.count("sections", total);
    ctx.nontrivial = true;
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Act {
    /// Lock with the given method, then bump two shared words; `true` marks a split.
    Write(u8, bool),
    /// Read both words between stable() and a validation.
    Read,
    /// Set or clear the root mark without the lock; a section that ends meanwhile may undo it, nothing else may be lost.
    Mark(bool),
}

struct Shared {
    v: NodeVersion,
    a: AtomicU64,
    b: AtomicU64,
    holders: AtomicU64,
}

/// Several threads: one holder at a time, no section lost, no torn read validates.
fn threads(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.urange(2, 4);
    let acts: Vec<Vec<Act>> = (0..n)
        .map(|_| {
            (0..src.urange(1, 4))
                .map(|_| match src.weighted(&[6, 3, 1]) {
                    0 => Act::Write(src.below(4) as u8, src.chance(1, 3)),
                    1 => Act::Read,
                    _ => Act::Mark(src.chance(1, 2)),
                })
                .collect()
        })
        .collect();
    let p = plan(src, n, 30);
    ctx.say(|| format!("{acts:?} {}", plan_text(&p)));
    let sh = Arc::new(Shared { v: NodeVersion::new(true), a: AtomicU64::new(0), b: AtomicU64::new(0), holders: AtomicU64::new(0) });
    let errs: Arc<Mutex<Vec<String>>> = Arc::default();
    let before = sh.v.stable();
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for list in acts.clone() {
        let (sh, errs) = (sh.clone(), errs.clone());
        jobs.push(Box::new(move || {
            let here = std::panic::Location::caller();
            let pause = |w: bool| sched::yield_point(if w { sched::EV_WRITE } else { sched::EV_LOAD }, 0, here);
            for act in list {
                match act {
                    Act::Write(how, split) => {
                        let mut g = match how {
                            0 => sh.v.lock(),
                            1 => sh.v.lock_with_yield(),
                            2 => loop {
                                if let Some(g) = sh.v.try_lock() {
                                    break g;
                                }
                                masstree_spin();
                            },
                            _ => match sh.v.try_lock_for(Duration::from_secs(100_000)) {
                                Some(g) => g,
                                None => {
                                    errs.lock().unwrap().push("a lock attempt gave up long before its time".into());
                                    continue;
                                }
                            },
                        };
                        if sh.holders.fetch_add(1, SeqCst) != 0 {
                            errs.lock().unwrap().push("two threads held the lock at once".into());
                        }
                        if split {
                            g.mark_split();
                        } else {
                            g.mark_insert();
                        }
                        let x = sh.a.load(SeqCst);
                        pause(false);
                        sh.a.store(x + 1, SeqCst);
                        pause(true);
                        let y = sh.b.load(SeqCst);
                        pause(false);
                        sh.b.store(y + 1, SeqCst);
                        pause(true);
                        sh.holders.fetch_sub(1, SeqCst);
                        drop(g);
                    }
                    Act::Mark(true) => sh.v.mark_root(),
                    Act::Mark(false) => sh.v.mark_nonroot(),
                    Act::Read => {
                        let s = sh.v.stable();
                        if s & 7 != 0 {
                            errs.lock().unwrap().push(format!("stable() returned {s:x}, which is locked or dirty"));
                        }
                        let x = sh.a.load(SeqCst);
                        pause(false);
                        let y = sh.b.load(SeqCst);
                        pause(false);
                        if !sh.v.has_changed_or_locked(s) && x != y {
                            errs.lock().unwrap().push(format!("a read of {x}/{y} passed its validation"));
                        }
                    }
                }
            }
        }));
    }
    let out = sched::run(jobs, p, 200_000, 20_000, false);
    if let Err(e) = stopped(&out) {
        fail!("{e}");
    }
    if let Some(e) = errs.lock().unwrap().first() {
        fail!("{e}");
    }
    let writes: u64 = acts.iter().flatten().filter(|a| matches!(a, Act::Write(..))).count() as u64;
    let splits = acts.iter().flatten().filter(|a| matches!(a, Act::Write(_, true))).count();
    ensure!(sh.a.load(SeqCst) == writes && sh.b.load(SeqCst) == writes, "{writes} sections ran, the counters hold {} and {}", sh.a.load(SeqCst), sh.b.load(SeqCst));
    ensure!(!sh.v.is_locked() && !sh.v.is_dirty(), "the version stays locked or dirty");
    let marks = acts.iter().flatten().any(|a| matches!(a, Act::Mark(_)));
    ensure!(sh.v.has_changed(before) || writes == 0, "{writes} sections, has_changed = false");
    ensure!(sh.v.has_split(before) || splits == 0, "{splits} splits, has_split = false");
    if marks {
        ctx.count("marked", 1);
        ctx.nontrivial = out.switches >= 1 && writes >= 1;
        return Ok(());
    }
    ensure!(sh.v.has_changed(before) == (writes > 0), "{writes} sections, has_changed = {}", sh.v.has_changed(before));
    ensure!(sh.v.has_split(before) == (splits > 0), "{splits} splits, has_split = {}", sh.v.has_split(before));
    ctx.count("switches", out.switches);
    ctx.nontrivial = out.switches >= 1 && writes >= 1;
    Ok(())
}

fn masstree_spin() {
    sched::yield_point(sched::EV_SPIN, 0, std::panic::Location::caller());
}

fn suites() -> Vec<Suite> {
    parts::hook();
    vec![Suite {
        id: "C15",
        rule: "more than one lock section with an earlier version to compare; scheduled runs with at least one switch and one writer",
        arms: vec![
            arm("sequential", 3_900_000, 250_000_000, sequential),
            arm("limits", 3_900_000, 250_000_000, limits),
            arm("wraps", 77, 15_000, wraps),
            arm("threads", 1_200_000, 50_000_000, threads),
        ],
        assumptions: vec!["a root mark changed without the lock while somebody holds it may be undone at the unlock",
            "fewer than 2^25 lock sections pass between taking a version and comparing it",
            "interleavings of atomic operations, sequentially consistent"],
        pin: true,
        workers: 8,
    }]
}

fn main() {
    kit::runner::main(suites)
}
