//! Deterministic scheduler: real OS threads, exactly one running at a time, switching only at
//! the yield points reported by the code under test. A schedule is a list of `(gap, target)`
//! preemptions followed by run-to-completion, so it shrinks like any other generated value.
use std::cell::{Cell, UnsafeCell};
use std::panic::{AssertUnwindSafe, Location, catch_unwind, resume_unwind};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};
use std::thread::Thread;

pub const EV_LOAD: u8 = 0;
pub const EV_WRITE: u8 = 1;
pub const EV_SPIN: u8 = 2;

pub const MAX_THREADS: usize = 6;

/// One preemption: let the running thread take `gap` steps, then switch.
#[derive(Clone, Copy, Debug)]
pub struct Preempt {
    pub gap: u32,
    pub target: u8,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub first: u8,
    pub preempts: Vec<Preempt>,
    pub count: Count,
    /// Switches tied to a thread's own step number; used instead of `preempts` when not empty.
    pub points: Vec<Point>,
}

/// Right before thread `th` takes its step number `at`, switch away from it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Point {
    pub th: u8,
    pub at: u32,
    pub target: u8,
}

/// One recorded step.
#[derive(Clone, Copy, Debug)]
pub struct Access {
    pub th: u8,
    pub ev: u8,
    pub at: u32,
    pub addr: usize,
    pub site: usize,
}

/// Which steps a preemption gap counts.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum Count {
    #[default]
    All,
    /// Only stores (preemptions land between stores).
    Writes,
    /// Only steps at source positions picked by hashing them with `salt` (about one in `one_in`),
    /// so that a schedule concentrates on a few kinds of step.
    Sites { salt: u32, one_in: u32 },
}

fn site_hit(at: &Location<'_>, salt: u32, one_in: u32) -> bool {
    let x = u64::from(at.line()) << 20 ^ u64::from(at.column()) << 8 ^ at.file().len() as u64;
    crate::rng::mix(&[x, u64::from(salt)]) % u64::from(one_in.max(1)) == 0
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// All threads finished.
    Done,
    /// Every unfinished thread is waiting and nobody writes.
    Deadlock(String),
    /// The step budget ran out although scheduling was fair.
    NoProgress(String),
    /// A thread panicked.
    Panicked(String),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub stop: Stop,
    pub steps: u64,
    pub switches: u64,
    pub forced: u64,
    /// Threads that never finished (abandoned).
    pub lost: bool,
}

struct AbortCase;

thread_local! {
    static SELF: Cell<usize> = const { Cell::new(usize::MAX) };
    static SOLO_STEPS: Cell<u64> = const { Cell::new(0) };
    static SOLO_BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}

struct State {
    n: usize,
    plan: Plan,
    next_pre: usize,
    remaining: u64,
    cur: usize,
    finished: [bool; MAX_THREADS],
    spinning: [bool; MAX_THREADS],
    in_call: [&'static str; MAX_THREADS],
    idle_spins: u64,
    steps: u64,
    fair_steps: u64,
    budget: u64,
    slice: u64,
    switches: u64,
    forced: u64,
    abort: Option<Stop>,
    clock: u64,
    local: [u32; MAX_THREADS],
    points_used: u64,
    record: bool,
    trace: Vec<Access>,
    last_fire: usize,
}

struct Sem {
    flag: AtomicBool,
    th: OnceLock<Thread>,
}

struct Global {
    st: UnsafeCell<State>,
    sems: [Sem; MAX_THREADS],
    main: std::sync::Mutex<Option<Thread>>,
    main_flag: AtomicBool,
}
unsafe impl Sync for Global {}

static G: OnceLock<Global> = OnceLock::new();

fn g() -> &'static Global {
    G.get_or_init(|| Global {
        st: UnsafeCell::new(State {
            n: 0,
            plan: Plan::default(),
            next_pre: 0,
            remaining: 0,
            cur: 0,
            finished: [true; MAX_THREADS],
            spinning: [false; MAX_THREADS],
            in_call: [""; MAX_THREADS],
            idle_spins: 0,
            steps: 0,
            fair_steps: 0,
            budget: 0,
            slice: 0,
            switches: 0,
            forced: 0,
            abort: None,
            clock: 0,
            local: [0; MAX_THREADS],
            points_used: 0,
            record: false,
            trace: Vec::new(),
            last_fire: 0,
        }),
        sems: std::array::from_fn(|_| Sem { flag: AtomicBool::new(false), th: OnceLock::new() }),
        main: std::sync::Mutex::new(None),
        main_flag: AtomicBool::new(false),
    })
}

/// Only the running thread (or the main thread while all are parked) may touch the state.
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut State {
    unsafe { &mut *g().st.get() }
}

fn wake(i: usize) {
    let s = &g().sems[i];
    s.flag.store(true, SeqCst);
    if let Some(t) = s.th.get() {
        t.unpark();
    }
}

fn wait(i: usize) {
    let s = &g().sems[i];
    while !s.flag.swap(false, SeqCst) {
        std::thread::park();
    }
}

fn wake_main() {
    g().main_flag.store(true, SeqCst);
    if let Some(t) = g().main.lock().unwrap().as_ref() {
        t.unpark();
    }
}

impl State {
    fn load_next(&mut self) {
        if self.next_pre < self.plan.preempts.len() {
            self.remaining = self.plan.preempts[self.next_pre].gap as u64 + 1;
        } else {
            self.remaining = self.slice;
        }
    }

    /// Pick another unfinished thread; prefers ones that are not spinning.
    fn choose(&mut self, from: usize, target: Option<u8>, include_self: bool) -> Option<usize> {
        let mut cands = [0usize; MAX_THREADS];
        let mut k = 0;
        for pass in 0..2 {
            for o in 1..=self.n {
                let i = (from + o) % self.n;
                if i == from && !include_self {
                    continue;
                }
                if self.finished[i] || (pass == 0 && self.spinning[i]) {
                    continue;
                }
                cands[k] = i;
                k += 1;
            }
            if k > 0 {
                break;
            }
        }
        if k == 0 {
            return None;
        }
        Some(cands[target.unwrap_or(0) as usize % k])
    }

    fn take_target(&mut self) -> Option<u8> {
        if self.next_pre < self.plan.preempts.len() {
            let t = self.plan.preempts[self.next_pre].target;
            self.next_pre += 1;
            Some(t)
        } else {
            None
        }
    }

    fn describe(&self) -> String {
        (0..self.n)
            .map(|i| {
                format!(
                    "t{i}:{}{}",
                    if self.finished[i] { "finished" } else { self.in_call[i] },
                    if self.spinning[i] { "(waiting)" } else { "" }
                )
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
}

fn switch_to(me: usize, to: usize) {
    let s = st();
    s.switches += 1;
    s.cur = to;
    wake(to);
    wait(me);
    if st().abort.is_some() && !std::thread::panicking() {
        resume_unwind(Box::new(AbortCase));
    }
}

/// Called from the hook of the code under test.
#[inline]
pub fn yield_point(ev: u8, addr: usize, at: &'static Location<'static>) {
    let me = SELF.with(Cell::get);
    if me == usize::MAX {
        let n = SOLO_STEPS.with(|s| {
            let n = s.get() + 1;
            s.set(n);
            n
        });
        if n > SOLO_BUDGET.with(Cell::get) && !std::thread::panicking() {
            SOLO_BUDGET.with(|b| b.set(u64::MAX));
            panic!("operation did not complete within its step budget");
        }
        return;
    }
    if std::thread::panicking() {
        return;
    }
    yield_slow(me, ev, addr, at);
}

fn yield_slow(me: usize, ev: u8, addr: usize, at: &'static Location<'static>) {
    let s = st();
    if s.abort.is_some() {
        resume_unwind(Box::new(AbortCase));
    }
    s.steps += 1;
    s.clock += 1;
    let at_step = s.local[me];
    s.local[me] += 1;
    if s.record && s.trace.len() < 200_000 {
        s.trace.push(Access {
            th: me as u8,
            ev,
            at: at_step,
            addr,
            site: std::ptr::from_ref(at) as usize,
        });
    }
    if s.next_pre >= s.plan.preempts.len() {
        s.fair_steps += 1;
        if s.fair_steps > s.budget {
            let d = s.describe();
            s.abort = Some(Stop::NoProgress(d));
            resume_unwind(Box::new(AbortCase));
        }
    }
    if ev == EV_SPIN {
        s.idle_spins += 1;
        s.spinning[me] = true;
        if s.idle_spins > 60_000 {
            let d = s.describe();
            s.abort = Some(Stop::Deadlock(d));
            resume_unwind(Box::new(AbortCase));
        }
        if let Some(to) = {
            // A waiting thread hands over to somebody who can make progress.
            let any = (0..s.n).any(|i| i != me && !s.finished[i] && !s.spinning[i]);
            if any || s.idle_spins % 64 == 0 {
                let t = s.take_target();
                s.choose(me, t, false)
            } else {
                None
            }
        } {
            s.forced += 1;
            s.load_next();
            switch_to(me, to);
        }
        return;
    }
    if ev == EV_WRITE {
        s.idle_spins = 0;
        s.spinning = [false; MAX_THREADS];
    }
    if !s.plan.points.is_empty() {
        for i in 0..s.plan.points.len().min(64) {
            let p = s.plan.points[i];
            if p.th as usize == me && p.at == at_step && s.points_used & (1 << i) == 0 {
                s.points_used |= 1 << i;
                s.last_fire = s.trace.len();
                if let Some(to) = s.choose(me, Some(p.target), false) {
                    s.remaining = s.slice;
                    switch_to(me, to);
                }
                return;
            }
        }
    }
    if s.next_pre < s.plan.preempts.len() {
        match s.plan.count {
            Count::All => {}
            Count::Writes if ev == EV_WRITE => {}
            Count::Sites { salt, one_in } if site_hit(at, salt, one_in) => {}
            _ => return,
        }
    }
    s.remaining -= 1;
    if s.remaining == 0 {
        let t = s.take_target();
        let to = s.choose(me, t, false);
        s.load_next();
        if let Some(to) = to {
            switch_to(me, to);
        }
    }
}

/// Logical clock for invocation/response events; strictly increasing.
pub fn tick() -> u64 {
    let s = st();
    s.clock += 1;
    s.clock
}

/// Label the call the current thread is in (for reports).
pub fn label(l: &'static str) {
    let me = SELF.with(Cell::get);
    if me != usize::MAX {
        st().in_call[me] = l;
    }
}

/// Steps taken so far in the running schedule.
pub fn steps() -> u64 {
    st().steps
}

type Job = Box<dyn FnOnce() + Send>;

struct Pool {
    jobs: Vec<std::sync::mpsc::Sender<Job>>,
}

thread_local! {
    static POOL: std::cell::RefCell<Option<Pool>> = const { std::cell::RefCell::new(None) };
}

fn body(i: usize, job: Job) -> Option<String> {
    SELF.with(|c| c.set(i));
    let r = catch_unwind(AssertUnwindSafe(|| {
        if st().abort.is_none() {
            job();
        }
    }));
    SELF.with(|c| c.set(usize::MAX));
    match r {
        Ok(()) => None,
        Err(e) if e.is::<AbortCase>() => None,
        Err(e) => Some(crate::runner::panic_text(&*e)),
    }
}

fn finish(i: usize, panic: Option<String>) {
    let s = st();
    s.finished[i] = true;
    s.spinning = [false; MAX_THREADS];
    s.idle_spins = 0;
    if let Some(p) = panic
        && s.abort.is_none()
    {
        s.abort = Some(Stop::Panicked(p));
    }
    let t = s.take_target();
    match s.choose(i, t, false) {
        Some(to) => {
            s.load_next();
            s.cur = to;
            wake(to);
        }
        None => wake_main(),
    }
}

fn ensure_pool(n: usize) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        let pool = p.get_or_insert_with(|| Pool { jobs: Vec::new() });
        while pool.jobs.len() < n {
            let i = pool.jobs.len();
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            std::thread::Builder::new()
                .name(format!("sched{i}"))
                .stack_size(4 << 20)
                .spawn(move || {
                    let _ = g().sems[i].th.set(std::thread::current());
                    while let Ok(job) = rx.recv() {
                        wait(i);
                        let p = body(i, job);
                        finish(i, p);
                    }
                })
                .unwrap();
            pool.jobs.push(tx);
        }
    });
}

/// Run `jobs` under `plan`. `budget` bounds the steps taken after the plan is used up.
pub fn run(jobs: Vec<Job>, plan: Plan, budget: u64, slice: u64, record: bool) -> Outcome {
    let n = jobs.len();
    assert!(n >= 1 && n <= MAX_THREADS);
    ensure_pool(n);
    *g().main.lock().unwrap() = Some(std::thread::current());
    {
        let s = st();
        s.n = n;
        s.plan = plan;
        s.next_pre = 0;
        s.finished = [true; MAX_THREADS];
        s.finished[..n].iter_mut().for_each(|f| *f = false);
        s.spinning = [false; MAX_THREADS];
        s.in_call = ["start"; MAX_THREADS];
        s.idle_spins = 0;
        s.steps = 0;
        s.fair_steps = 0;
        s.budget = budget;
        s.slice = slice;
        s.switches = 0;
        s.forced = 0;
        s.abort = None;
        s.clock = 0;
        s.local = [0; MAX_THREADS];
        s.points_used = 0;
        s.record = record;
        s.trace.clear();
        s.last_fire = 0;
        s.load_next();
        s.cur = s.plan.first as usize % n;
    }
    POOL.with(|p| {
        let p = p.borrow();
        for (i, j) in jobs.into_iter().enumerate() {
            p.as_ref().unwrap().jobs[i].send(j).unwrap();
        }
    });
    g().main_flag.store(false, SeqCst);
    wake(st().cur);
    while !g().main_flag.swap(false, SeqCst) {
        std::thread::park();
    }
    let s = st();
    Outcome {
        lost: s.abort.is_some(),
        stop: s.abort.take().unwrap_or(Stop::Done),
        steps: s.steps,
        switches: s.switches,
        forced: s.forced,
    }
}

/// Steps of one thread that touch memory another thread also touches, in all and by source position.
#[derive(Clone, Debug, Default)]
pub struct Conflicts {
    pub all: Vec<u32>,
    pub by_site: Vec<Vec<u32>>,
    /// Steps on the address that the thread suspended last was about to touch.
    pub pending: Vec<u32>,
}

/// For every thread, its steps on an address that another thread also touched, at least one of
/// them writing (from the last recorded run).
/// With `late`, only steps after the last scheduled switch that took place are listed.
pub fn conflicts(n: usize, late: bool) -> Vec<Conflicts> {
    let s = st();
    let mut users: std::collections::HashMap<usize, (u32, u32)> = std::collections::HashMap::new();
    for a in &s.trace {
        if a.addr != 0 {
            let e = users.entry(a.addr).or_default();
            e.0 |= 1 << a.th;
            if a.ev == EV_WRITE {
                e.1 |= 1 << a.th;
            }
        }
    }
    let mut out = vec![Conflicts::default(); n];
    let mut sites: Vec<std::collections::HashMap<usize, usize>> = vec![Default::default(); n];
    let from = if late { s.last_fire } else { 0 };
    let pend = if late && from > 0 { s.trace.get(from - 1).copied() } else { None };
    for a in &s.trace[from..] {
        if let Some(&(all, wr)) = users.get(&a.addr) {
            let me = 1u32 << a.th;
            let others = all & !me;
            if others != 0 && (wr & !me != 0 || (a.ev == EV_WRITE && wr & me != 0)) {
                let o = &mut out[a.th as usize];
                o.all.push(a.at);
                if let Some(p) = pend
                    && p.addr == a.addr
                    && p.th != a.th
                    && (p.ev == EV_WRITE || a.ev == EV_WRITE)
                {
                    o.pending.push(a.at);
                }
                // numbered in order of first use, so that a replay sees the same numbering
                let k = sites[a.th as usize].len();
                let k = *sites[a.th as usize].entry(a.site).or_insert(k);
                if k == o.by_site.len() {
                    o.by_site.push(Vec::new());
                }
                o.by_site[k].push(a.at);
            }
        }
    }
    out
}

/// Points of the last run's plan at which a switch took place.
pub fn fired() -> Vec<Point> {
    let s = st();
    s.plan.points.iter().enumerate().filter(|(i, _)| *i < 64 && s.points_used & (1 << i) != 0).map(|(_, p)| *p).collect()
}

/// Steps each thread took in the last run.
pub fn local_steps(n: usize) -> Vec<u32> {
    st().local[..n].to_vec()
}

/// Bound the yield points one uncontrolled call may take.
pub fn solo_budget(n: u64) {
    SOLO_STEPS.with(|s| s.set(0));
    SOLO_BUDGET.with(|b| b.set(n));
}

pub fn solo_steps() -> u64 {
    SOLO_STEPS.with(Cell::get)
}

#[allow(dead_code)]
fn _assert(_: Arc<()>) {}

/// The last run's recorded steps as (thread, kind, step number).
pub fn raw_trace() -> Vec<(u8, u8, u32)> {
    st().trace.iter().map(|a| (a.th, a.ev, a.at)).collect()
}
