//! Runs one workload, given as text, on real threads; meant to run under Miri.
//!
//! `mem KIND KEYS OPS`: KIND is `arc`, `inline` or `index`; KEYS are hexadecimal, separated by
//! `,`; OPS are the lists of the threads, separated by `/`. The first list runs alone before the
//! others start. Operations are a letter and the place of the key in KEYS: `i3` insert with a
//! guard, `I3` insert without, `g3` and `G3` look up, `r3` take a reference and keep it, `d` give
//! up the guard and all references, `l` length. The n-th insert of OPS stores n.
//! A fourth argument directs the schedule: `t.o.n.u.p.m`, separated by `,`: thread t stops at its n-th
//! atomic access within operation o until thread u has reached access m of operation p (or waits,
//! or is done). Stopping and going on use relaxed accesses only, so they order nothing.
//! Miri runs every step of this slowly, hence byte loops and plain vectors.
use masstree::{MassTree, MassTree24Inline, MassTreeIndex};
use masstree::sync::Event;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// One stop: place, then whom to wait for.
#[derive(Clone, Copy)]
struct Stop {
    thread: usize,
    at: u64,
    other: usize,
    until: u64,
}

/// A place in a thread's run: the operation in the high half, the access within it in the low half.
fn place(op: u64, access: u64) -> u64 {
    op << 32 | access
}
const OVER: u64 = u64::MAX;

static STOPS: std::sync::OnceLock<Vec<Stop>> = std::sync::OnceLock::new();
/// Where each thread is; `OVER` when it is done or waits for another.
static WHERE: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
/// Stops made.
static MADE: AtomicU64 = AtomicU64::new(0);
struct Access {
    thread: usize,
    at: u64,
    addr: usize,
    write: bool,
    site: &'static std::panic::Location<'static>,
}
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static AT: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    /// Every access while tracing.
    static TRACE: RefCell<Vec<Access>> = const { RefCell::new(Vec::new()) };
}

/// Records instead of stopping.
fn trace(e: Event, addr: usize, site: &'static std::panic::Location<'static>) {
    let thread = ME.get();
    if thread != usize::MAX && e != Event::Spin {
        let at = AT.get() + 1;
        AT.set(at);
        TRACE.with_borrow_mut(|t| t.push(Access { thread, at, addr, write: e == Event::Write, site }));
    }
}

/// Prints the accesses of `t` (R) and of the other thread (W) that conflict with one of the other
/// side, each with its place in the source.
fn conflicts(t: usize) {
    let all = TRACE.take();
    let set = |mine: bool, writes: bool| -> HashSet<usize> {
        all.iter().filter(|a| (a.thread == t) == mine && (a.write || !writes)).map(|a| a.addr).collect()
    };
    let sets = [[set(false, false), set(false, true)], [set(true, false), set(true, true)]];
    for a in &all {
        let mine = usize::from(a.thread == t);
        if sets[1 - mine][usize::from(!a.write)].contains(&a.addr) {
            println!("{} {}.{} {}:{}:{}", ["W", "R"][mine], a.at >> 32, a.at & 0xffff_ffff, a.site.file(), a.site.line(), a.site.column());
        }
    }
}

fn hook(e: Event, _: usize, _: &'static std::panic::Location<'static>) {
    let me = ME.get();
    if me == usize::MAX {
        return;
    }
    if e == Event::Spin {
        WHERE[me].store(OVER, Relaxed);
        std::thread::yield_now();
        return;
    }
    let at = AT.get() + 1;
    AT.set(at);
    WHERE[me].store(at, Relaxed);
    let Some(stops) = STOPS.get() else { return };
    let mut i = NEXT.get();
    // Stops of operations that ended before the access are passed over.
    while i < stops.len() && (stops[i].thread != me || stops[i].at < at) {
        i += 1;
    }
    NEXT.set(i);
    if i < stops.len() && stops[i].at == at {
        NEXT.set(i + 1);
        MADE.fetch_add(1, Relaxed);
        let mut patience = 3000;
        while WHERE[stops[i].other].load(Relaxed) < stops[i].until && patience > 0 {
            std::thread::yield_now();
            patience -= 1;
        }
    }
}

/// The calling thread starts operation `op`; thread 0 is never stopped.
fn begin(t: usize, op: usize) {
    if t > 0 {
        ME.set(t);
        AT.set(place(op as u64, 0));
    }
}

fn stops(s: &str) -> Vec<Stop> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let n: Vec<u64> = x.split('.').map(|d| d.parse().unwrap()).collect();
            Stop { thread: n[0] as usize, at: place(n[1], n[2]), other: n[3] as usize, until: place(n[4], n[5]) }
        })
        .collect()
}

#[derive(Clone, Copy)]
enum Op {
    Insert(usize, u64, bool),
    Get(usize, bool),
    Ref(usize),
    Drop,
    Len,
}

struct Work {
    keys: Vec<Vec<u8>>,
    lists: Vec<Vec<Op>>,
    /// Thread and key of every value; value 0 is none.
    stored: Vec<(usize, usize)>,
    /// Number of inserts of each key, and of keys that have any.
    inserts: Vec<usize>,
    distinct: usize,
}

fn parse(keys: &str, ops: &str) -> Work {
    let nib = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    let mut w = Work { keys: vec![Vec::new()], lists: vec![Vec::new()], stored: vec![(usize::MAX, usize::MAX)], inserts: Vec::new(), distinct: 0 };
    let b = keys.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b',' {
            w.keys.push(Vec::new());
            i += 1;
        } else {
            let byte = nib(b[i]) << 4 | nib(b[i + 1]);
            w.keys.last_mut().unwrap().push(byte);
            i += 2;
        }
    }
    w.inserts = vec![0; w.keys.len()];
    let b = ops.as_bytes();
    i = 0;
    while i < b.len() {
        let c = b[i];
        i += 1;
        let mut k = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + usize::from(b[i] - b'0');
            i += 1;
        }
        let op = match c {
            b'/' => {
                w.lists.push(Vec::new());
                continue;
            }
            b',' => continue,
            b'i' | b'I' => {
                w.stored.push((w.lists.len() - 1, k));
                w.distinct += usize::from(w.inserts[k] == 0);
                w.inserts[k] += 1;
                Op::Insert(k, w.stored.len() as u64 - 1, c == b'i')
            }
            b'g' | b'G' => Op::Get(k, c == b'g'),
            b'r' => Op::Ref(k),
            b'd' => Op::Drop,
            _ => Op::Len,
        };
        w.lists.last_mut().unwrap().push(op);
    }
    w
}

/// A value that knows its number twice, on the heap or inline.
trait Val: Send + Sync + 'static {
    fn make(n: u64) -> Self;
    fn n(&self) -> u64;
}
struct Heap(Box<(u64, u64)>);
impl Val for Heap {
    fn make(n: u64) -> Self {
        Heap(Box::new((n, !n)))
    }
    fn n(&self) -> u64 {
        assert_eq!(self.0.0, !self.0.1, "torn value");
        self.0.0
    }
}
#[derive(Clone, Copy)]
struct Flat([u64; 3]);
impl Val for Flat {
    fn make(n: u64) -> Self {
        Flat([n, !n, n ^ 77])
    }
    fn n(&self) -> u64 {
        assert!(self.0[0] == !self.0[1] && self.0[2] == self.0[0] ^ 77, "torn value");
        self.0[0]
    }
}

impl Work {
    /// Check what thread `t` read or replaced, having itself stored `mine` there last (0: never).
    fn check(&self, t: usize, k: usize, got: Option<u64>, mine: u64, pre: u64, what: &str) {
        let Some(n) = got else {
            assert!(mine == 0 && pre == 0, "ORACLE {what} of key {k} found nothing, {mine} {pre} was stored");
            return;
        };
        let (by, key) = self.stored.get(n as usize).copied().unwrap_or((usize::MAX, usize::MAX));
        assert!(key == k, "ORACLE {what} of key {k} gave {n}, which was never stored there");
        if mine != 0 {
            assert!(by != t || n == mine, "ORACLE {what} of key {k} gave the thread's own old value {n}, not {mine}");
            assert!(by != 0 || t == 0, "ORACLE {what} of key {k} gave the first value {n} after a later one");
        }
        assert!(by != 0 || t == 0 || n == pre, "ORACLE {what} of key {k} gave {n}, replaced before the threads began");
    }
}

macro_rules! concurrent {
    ($name:ident, $tree:ty, $v:ty, $out:expr) => {
        fn $name(w: Work, solo: Option<usize>) {
            let out: fn(&_) -> u64 = $out;
            let tree: $tree = <$tree>::new();
            // What the inserts of each key replaced, 0 for nothing, and how many keys the first list stored.
            let olds: Mutex<Vec<Vec<u64>>> = Mutex::new(vec![Vec::new(); w.keys.len()]);
            let work = |t: usize, pre: &[u64], present: usize| {
                let mut mine = vec![0u64; w.keys.len()];
                let (mut own, mut told) = (0, Vec::new());
                let mut guard = tree.guard();
                let list = &w.lists[t];
                let mut i = 0;
                while i < list.len() {
                    let mut refs: Vec<(&$v, u64)> = Vec::new();
                    while i < list.len() {
                        let op = list[i];
                        begin(t, i);
                        i += 1;
                        match op {
                            Op::Insert(k, n, g) => {
                                let key = &w.keys[k];
                                let old = if g { tree.insert_with_guard(key, <$v>::make(n), &guard) } else { tree.insert(key, <$v>::make(n)) };
                                let old = old.unwrap_or_else(|_| panic!("ORACLE insert of key {k} failed")).map(|o| out(&o));
                                w.check(t, k, old, mine[k], pre[k], "insert");
                                told.push((k, old.unwrap_or(0)));
                                own += usize::from(old.is_none());
                                mine[k] = n;
                            }
                            Op::Get(k, g) => {
                                let got = if g { tree.get_with_guard(&w.keys[k], &guard) } else { tree.get(&w.keys[k]) };
                                w.check(t, k, got.map(|o| out(&o)), mine[k], pre[k], "get");
                            }
                            Op::Ref(k) => {
                                let got = tree.get_ref(&w.keys[k], &guard);
                                w.check(t, k, got.map(Val::n), mine[k], pre[k], "get_ref");
                                if let Some(r) = got {
                                    refs.push((r, r.n()));
                                }
                            }
                            Op::Len => {
                                let l = tree.len();
                                // Another's new key may be counted only after this thread replaced its value.
                                assert!(l >= present + own && l <= w.distinct, "ORACLE length {l}, {present} and {own} own");
                            }
                            Op::Drop => break,
                        }
                        for (r, n) in &refs {
                            assert_eq!(r.n(), *n, "ORACLE a reference changed");
                        }
                    }
                    for (r, n) in &refs {
                        assert_eq!(r.n(), *n, "ORACLE a reference changed");
                    }
                    drop(refs);
                    drop(guard);
                    guard = tree.guard();
                }
                if t > 0 {
                    ME.set(usize::MAX);
                    WHERE[t].store(OVER, Relaxed);
                }
                let mut olds = olds.lock().unwrap();
                for (k, old) in told {
                    olds[k].push(old);
                }
                (mine, own)
            };
            let (pre, present) = work(0, &vec![0; w.keys.len()], 0);
            if let Some(t) = solo {
                masstree::sync::set_hook(trace);
                work(t, &pre, present);
                work(3 - t, &pre, present);
                return conflicts(t);
            }
            let ok = std::thread::scope(|sc| {
                let handles: Vec<_> = (1..w.lists.len())
                    .map(|t| {
                        let (work, pre) = (&work, &pre);
                        sc.spawn(move || {
                            work(t, pre, present);
                        })
                    })
                    .collect();
                handles.into_iter().fold(true, |ok, h| h.join().is_ok() && ok)
            });
            assert!(ok, "ORACLE a thread failed");
            // Every stored value was replaced once or is still there; one insert per key found nothing.
            let mut gone = vec![0; w.stored.len()];
            for (k, olds) in olds.lock().unwrap().iter().enumerate() {
                if w.inserts[k] == 0 {
                    continue;
                }
                let Some(last) = tree.get(&w.keys[k]) else { panic!("ORACLE key {k} is missing at the end") };
                for &n in olds.iter().chain([&out(&last)]) {
                    assert!(n == 0 || w.stored[n as usize].1 == k, "ORACLE key {k} held {n}");
                    gone[n as usize] += 1;
                }
            }
            assert_eq!(gone[0], w.distinct, "ORACLE inserts that found nothing");
            assert!(gone[1..].iter().all(|&n| n == 1), "ORACLE times each value was given back or left: {gone:?}");
            assert_eq!(tree.len(), w.distinct, "ORACLE length at the end");
        }
    };
}
concurrent!(arc, MassTree<Heap>, Heap, |o: &Arc<Heap>| o.n());
concurrent!(inline, MassTree24Inline<Flat>, Flat, |o: &Flat| o.n());

/// One thread on the index wrapper.
fn index(w: Work) {
    let mut t: MassTreeIndex<Flat> = MassTreeIndex::new();
    let mut m = vec![0; w.keys.len()];
    for &op in w.lists.iter().flatten() {
        match op {
            Op::Insert(k, n, _) => {
                let old = t.insert(&w.keys[k], Flat::make(n)).unwrap_or_else(|_| panic!("ORACLE insert failed"));
                assert_eq!(old.map_or(0, |o| o.n()), m[k], "ORACLE insert");
                m[k] = n;
            }
            Op::Get(k, _) | Op::Ref(k) => assert_eq!(t.get(&w.keys[k]).map_or(0, |o| o.n()), m[k], "ORACLE get"),
            _ => assert_eq!(t.len(), m.iter().filter(|&&n| n != 0).count(), "ORACLE length"),
        }
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mut next = || a.next().unwrap_or_default();
    let (kind, keys, ops) = (next(), next(), next());
    let fourth = next();
    // `solo1` or `solo2`: that thread's list and then the other's, with the accesses that would conflict.
    let solo = fourth.strip_prefix("solo").map(|t| t.parse().unwrap());
    let plan = stops(if solo.is_some() { "" } else { &fourth });
    if !plan.is_empty() {
        let _ = STOPS.set(plan);
        masstree::sync::set_hook(hook);
    }
    let w = parse(&keys, &ops);
    match kind.as_str() {
        "arc" => arc(w, solo),
        "inline" => inline(w, solo),
        _ => index(w),
    }
    println!("DONE {}", MADE.load(Relaxed));
}
