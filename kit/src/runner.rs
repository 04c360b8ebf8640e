//! Case runner: splits a fixed amount of generated cases over worker processes, shrinks a
//! failing case, writes its replay file and the evidence file.
use crate::rng::{hash_bytes, mix};
use crate::src::{Src, shrink};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    /// Exact identity of the failure, matched against the known-findings file.
    pub sig: String,
}

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        let msg = msg.into();
        Self { sig: msg.clone(), msg }
    }
}

pub type CaseResult = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::Fail::new(format!($($a)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::Fail::new(format!($($a)*))); } };
}

/// Per-case collector.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub want_text: bool,
    pub text: String,
    pub thorough: bool,
    pub index: u64,
}

impl Ctx {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.want_text {
            let s = f();
            self.text.push_str(&s);
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

pub struct Arm {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Suite {
    pub id: &'static str,
    pub rule: &'static str,
    pub arms: Vec<Arm>,
    pub assumptions: Vec<&'static str>,
    /// Pin each worker to one core (scheduled arms).
    pub pin: bool,
    pub workers: usize,
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let base = if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    let loc = LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default();
    format!("{base} [{loc}]")
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        if let Some(l) = info.location()
            && let Ok(mut g) = LAST_PANIC.lock()
        {
            *g = format!("{}:{}", l.file(), l.line());
        }
        if std::env::var_os("MT_SHOW_PANIC").is_some() {
            eprintln!("{info}");
        }
    }));
}

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => {
            if r.is_ok() && !crate::alloc::drain() {
                return Err(Fail::new("freed memory was written to"));
            }
            r
        }
        Err(e) => Err(Fail::new(format!("panic: {}", panic_text(&*e)))),
    }
}

struct Known {
    entries: Vec<(String, String)>,
}

impl Known {
    fn load(path: &Path) -> Self {
        let mut entries = Vec::new();
        if let Ok(s) = std::fs::read_to_string(path) {
            for l in s.lines() {
                // finding: property=<id> sig=<exact signature>
                if let Some(r) = l.strip_prefix("finding: property=")
                    && let Some((id, sig)) = r.split_once(" sig=")
                {
                    entries.push((id.to_string(), sig.to_string()));
                }
            }
        }
        Self { entries }
    }
    fn has(&self, id: &str, sig: &str) -> bool {
        self.entries.iter().any(|(i, s)| i == id && s == sig)
    }
}

struct Opts {
    tier: String,
    seed: u64,
    root: PathBuf,
    only_arm: Option<String>,
    scale: f64,
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// Entry point of every harness binary.
pub fn main(suites: fn() -> Vec<Suite>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    quiet_panics();
    let suites = suites();
    if args.first().map(String::as_str) == Some("--list") {
        for s in &suites {
            println!("{}", s.id);
        }
        std::process::exit(0);
    }
    let Some(id) = args.first().cloned() else {
        eprintln!("usage: <property> [--tier quick|thorough] [--replay FILE] [--arm NAME]");
        std::process::exit(2);
    };
    let Some(suite) = suites.into_iter().find(|s| s.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let root = PathBuf::from(std::env::var("MT_VERIF_ROOT").unwrap_or_else(|_| ".".into()));
    let opts = Opts {
        tier: arg(&args, "--tier")
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        root,
        only_arm: arg(&args, "--arm"),
        scale: arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    if let Some(f) = arg(&args, "--replay") {
        std::process::exit(replay(&suite, Path::new(&f)));
    }
    if let Some(w) = arg(&args, "--worker") {
        let w: usize = w.parse().unwrap();
        let dir = PathBuf::from(arg(&args, "--dir").unwrap());
        let nw: usize = arg(&args, "--of").unwrap().parse().unwrap();
        worker(&suite, &opts, w, nw, &dir);
    }
    if let Some(c) = arg(&args, "--case") {
        let a: usize = arg(&args, "--arm-index").unwrap().parse().unwrap();
        let j: u64 = c.parse().unwrap();
        let seed = case_seed(&suite, &opts, a, j);
        let mut src = Src::random(seed);
        let mut ctx = Ctx { thorough: opts.tier == "thorough", index: j, ..Ctx::default() };
        pin(&suite, 0);
        match run_case(suite.arms[a].f, &mut src, &mut ctx) {
            Ok(()) => std::process::exit(0),
            Err(e) => {
                println!("FAIL {}", e.msg);
                std::process::exit(1)
            }
        }
    }
    std::process::exit(parent(&suite, &opts));
}

fn case_seed(suite: &Suite, o: &Opts, arm: usize, j: u64) -> u64 {
    mix(&[o.seed, hash_bytes(suite.id.as_bytes()), hash_bytes(suite.arms[arm].name.as_bytes()), j])
}

fn pin(suite: &Suite, w: usize) {
    if !suite.pin {
        return;
    }
    unsafe {
        let mut cur: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut cur) != 0 {
            return;
        }
        let cpus: Vec<usize> =
            (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &cur)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn arm_cases(a: &Arm, o: &Opts) -> u64 {
    if let Some(n) = &o.only_arm
        && n != a.name
    {
        return 0;
    }
    let base = if o.tier == "thorough" { a.thorough } else { a.quick };
    if base == 0 { 0 } else { ((base as f64 * o.scale) as u64).max(1) }
}

fn describe(f: CaseFn, data: &[u64], thorough: bool, index: u64) -> String {
    let mut src = Src::replay(data.to_vec());
    let mut ctx = Ctx { want_text: true, thorough, index, ..Ctx::default() };
    let r = run_case(f, &mut src, &mut ctx);
    match r {
        Ok(()) => ctx.text,
        Err(e) => format!("{}\n=> {}", ctx.text, e.msg),
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

fn worker(suite: &Suite, o: &Opts, w: usize, nw: usize, dir: &Path) -> ! {
    pin(suite, w);
    let thorough = o.tier == "thorough";
    let prog = std::fs::File::create(dir.join(format!("p{w}"))).unwrap();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut samples: Vec<Value> = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let known = Known::load(&o.root.join("known_findings.txt"));
    for (ai, arm) in suite.arms.iter().enumerate() {
        let n = arm_cases(arm, o);
        let mut arm_samples = 0;
        let mut arm_evals = 0u64;
        let mut arm_nt = 0u64;
        let t0 = Instant::now();
        let mut j = w as u64;
        while j < n {
            {
                use std::os::unix::fs::FileExt;
                let mut b = [0u8; 24];
                b[..8].copy_from_slice(&(ai as u64).to_le_bytes());
                b[8..16].copy_from_slice(&j.to_le_bytes());
                b[16..].copy_from_slice(&1u64.to_le_bytes());
                let _ = prog.write_at(&b, 0);
            }
            let seed = case_seed(suite, o, ai, j);
            let mut src = Src::random(seed);
            let mut ctx = Ctx {
                thorough,
                index: j,
                want_text: arm_samples < 2 && w < 2,
                ..Ctx::default()
            };
            let r = run_case(arm.f, &mut src, &mut ctx);
            evals += 1;
            arm_evals += 1;
            if ctx.nontrivial {
                nontrivial += 1;
                arm_nt += 1;
                if hashes.len() < 3_000_000 {
                    let mut b = Vec::with_capacity(src.taken().len() * 8);
                    for v in src.taken() {
                        b.extend_from_slice(&v.to_le_bytes());
                    }
                    hashes.insert(hash_bytes(&b) ^ ai as u64);
                }
                if ctx.want_text && r.is_ok() {
                    arm_samples += 1;
                    samples.push(json!({"arm": arm.name, "case": j, "text": clip(&ctx.text, 1500)}));
                }
            }
            for (k, v) in &ctx.counters {
                *counters.entry(format!("{}.{}", arm.name, k)).or_insert(0) += v;
            }
            if let Err(e) = r {
                if known.has(suite.id, &e.sig) {
                    *known_hits.entry(e.sig.clone()).or_insert(0) += 1;
                } else {
                    let f = arm.f;
                    let first = src.taken().to_vec();
                    let _ = std::fs::write(
                        dir.join(format!("fail{w}")),
                        json!({"arm": arm.name, "case": j, "choices": first, "message": e.msg,
                               "thorough": thorough, "stage": "raw"})
                        .to_string(),
                    );
                    let mut last = e.clone();
                    let shrunk = shrink(first, 4000, 25.0, |cand| {
                        let mut s = Src::replay(cand.to_vec());
                        let mut c = Ctx { thorough, index: j, ..Ctx::default() };
                        match run_case(f, &mut s, &mut c) {
                            Err(e2) if !known.has(suite.id, &e2.sig) => {
                                last = e2;
                                Some(s.taken().to_vec())
                            }
                            _ => None,
                        }
                    });
                    let text = describe(f, &shrunk, thorough, j);
                    let _ = std::fs::write(
                        dir.join(format!("fail{w}")),
                        json!({"arm": arm.name, "case": j, "choices": shrunk, "message": last.msg,
                               "thorough": thorough, "text": text, "stage": "shrunk"})
                        .to_string(),
                    );
                    std::process::exit(1);
                }
            }
            j += nw as u64;
        }
        if n > 0 {
            *counters.entry(format!("{}.cases", arm.name)).or_insert(0) += arm_evals;
            *counters.entry(format!("{}.nontrivial", arm.name)).or_insert(0) += arm_nt;
            *counters.entry(format!("{}.ms", arm.name)).or_insert(0) +=
                t0.elapsed().as_millis() as u64;
        }
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("h{w}")), hb).unwrap();
    std::fs::write(
        dir.join(format!("r{w}")),
        json!({"evals": evals, "nontrivial": nontrivial, "counters": counters,
               "samples": samples, "known": known_hits})
        .to_string(),
    )
    .unwrap();
    std::process::exit(0);
}

fn self_cmd(suite: &Suite, o: &Opts) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(suite.id).arg("--tier").arg(&o.tier);
    if let Some(a) = &o.only_arm {
        c.arg("--arm").arg(a);
    }
    c.arg("--scale").arg(o.scale.to_string());
    c.env("VERIF_SEED", o.seed.to_string());
    c.env("MT_VERIF_ROOT", &o.root);
    c
}

#[derive(Debug, PartialEq)]
enum End {
    Ok,
    Fail,
    Crash(i32),
    Timeout,
    Other(String),
}

fn wait_end(mut child: std::process::Child, limit: Duration) -> End {
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                use std::os::unix::process::ExitStatusExt;
                return match (st.code(), st.signal()) {
                    (Some(0), _) => End::Ok,
                    (Some(1), _) => End::Fail,
                    (Some(c), _) => End::Other(format!("exit {c}")),
                    (None, Some(s)) if is_crash(s) => End::Crash(s),
                    (None, s) => End::Other(format!("signal {s:?}")),
                };
            }
            Ok(None) => {
                if t.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return End::Timeout;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            Err(e) => return End::Other(e.to_string()),
        }
    }
}

fn is_crash(s: i32) -> bool {
    [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP]
        .contains(&s)
}

fn read_progress(dir: &Path, w: usize) -> Option<(usize, u64)> {
    let b = std::fs::read(dir.join(format!("p{w}"))).ok()?;
    if b.len() < 24 {
        return None;
    }
    Some((
        u64::from_le_bytes(b[..8].try_into().unwrap()) as usize,
        u64::from_le_bytes(b[8..16].try_into().unwrap()),
    ))
}

fn case_stall_limit(o: &Opts) -> Duration {
    Duration::from_secs(if o.tier == "thorough" { 240 } else { 100 })
}

fn parent(suite: &Suite, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let work = o.root.join(".work").join(format!("{}-{}", suite.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).unwrap();
    let code = parent_inner(suite, o, &work, t0);
    let _ = std::fs::remove_dir_all(&work);
    code
}

fn violation(suite: &Suite, o: &Opts, rec: &Value) -> i32 {
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", suite.id));
    let mut rec = rec.clone();
    rec["property"] = json!(suite.id);
    rec["seed"] = json!(o.seed);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap());
    println!("-- {} arm={} --", suite.id, rec["arm"].as_str().unwrap_or("?"));
    println!("{}", rec["message"].as_str().unwrap_or("?"));
    if let Some(t) = rec["text"].as_str() {
        println!("{}", clip(t, 4000));
    }
    println!("VIOLATION property={} replay={}", suite.id, path.display());
    1
}

fn parent_inner(suite: &Suite, o: &Opts, work: &Path, t0: Instant) -> i32 {
    let nw = suite.workers;
    let mut kids: Vec<Option<std::process::Child>> = Vec::new();
    for w in 0..nw {
        let c = self_cmd(suite, o)
            .arg("--worker")
            .arg(w.to_string())
            .arg("--of")
            .arg(nw.to_string())
            .arg("--dir")
            .arg(work)
            .stdin(Stdio::null())
            .spawn()
            .unwrap();
        kids.push(Some(c));
    }
    let mut last: Vec<(Option<(usize, u64)>, Instant)> = vec![(None, Instant::now()); nw];
    let mut fails: Vec<usize> = Vec::new();
    let mut crashed: Option<(usize, String)> = None;
    let mut infra: Option<String> = None;
    let mut first_fail: Option<Instant> = None;
    loop {
        let mut alive = 0;
        for w in 0..nw {
            let Some(k) = kids[w].as_mut() else { continue };
            match k.try_wait() {
                Ok(Some(st)) => {
                    use std::os::unix::process::ExitStatusExt;
                    kids[w] = None;
                    match (st.code(), st.signal()) {
                        (Some(0), _) => {}
                        (Some(1), _) => {
                            fails.push(w);
                            first_fail.get_or_insert(Instant::now());
                        }
                        (_, Some(s)) if is_crash(s) => {
                            crashed.get_or_insert((w, format!("signal {s}")));
                        }
                        _ => infra = Some(format!("worker {w}: {st}")),
                    }
                }
                Ok(None) => {
                    alive += 1;
                    let p = read_progress(work, w);
                    let shrinking = work.join(format!("fail{w}")).exists();
                    if shrinking {
                        first_fail.get_or_insert(Instant::now());
                    }
                    if p != last[w].0 || shrinking {
                        last[w] = (p, Instant::now());
                    } else if last[w].1.elapsed() > case_stall_limit(o) {
                        let _ = k.kill();
                        let _ = k.wait();
                        kids[w] = None;
                        crashed.get_or_insert((w, "stall".into()));
                    }
                }
                Err(e) => infra = Some(e.to_string()),
            }
        }
        let give_up = !fails.is_empty()
            || infra.is_some()
            || crashed.is_some()
            || first_fail.is_some_and(|t| t.elapsed() > Duration::from_secs(60));
        if alive == 0 || give_up {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    // A failure found (possibly still shrinking) by any worker.
    let mut recs: Vec<Value> = (0..nw)
        .filter_map(|w| std::fs::read_to_string(work.join(format!("fail{w}"))).ok())
        .filter_map(|s| serde_json::from_str(&s).ok())
        .collect();
    if !recs.is_empty() {
        recs.sort_by_key(|r: &Value| {
            (r["stage"] != "shrunk", r["choices"].as_array().map_or(0, Vec::len))
        });
        return violation(suite, o, &recs[0]);
    }
    if let Some((w, how)) = crashed {
        let Some((ai, j)) = read_progress(work, w) else {
            eprintln!("worker {w} ended by {how} before its first case");
            return 2;
        };
        return crash_case(suite, o, work, ai, j, &how);
    }
    if let Some(e) = infra {
        eprintln!("infrastructure failure: {e}");
        return 2;
    }
    // Merge.
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in 0..nw {
        let Ok(s) = std::fs::read_to_string(work.join(format!("r{w}"))) else {
            eprintln!("worker {w} left no result");
            return 2;
        };
        let v: Value = serde_json::from_str(&s).unwrap();
        evals += v["evals"].as_u64().unwrap();
        nontrivial += v["nontrivial"].as_u64().unwrap();
        for (k, n) in v["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for (k, n) in v["known"].as_object().unwrap() {
            *known.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        let hb = std::fs::read(work.join(format!("h{w}"))).unwrap();
        for c in hb.chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    samples.sort_by_key(|s| s["case"].as_u64().unwrap_or(0));
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    samples.retain(|s| {
        let e = per.entry(s["arm"].as_str().unwrap_or("").to_string()).or_insert(0);
        *e += 1;
        *e <= 2
    });
    for (s, n) in &known {
        println!("KNOWN-FINDING: property={} {} ({} cases)", suite.id, s, n);
    }
    let ev = json!({
        "property": suite.id,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": suite.rule,
            "samples": samples,
            "nontrivial_evaluations": nontrivial,
            "counters": counters,
        },
        "violations": 0,
        "assumptions": suite.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let ed = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", suite.id)), serde_json::to_string_pretty(&ev).unwrap())
        .unwrap();
    println!(
        "OK property={} cases={} nontrivial={} distinct={} wall={:.1}s",
        suite.id,
        evals,
        nontrivial,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    std::io::stdout().flush().ok();
    0
}

/// A worker died (or stalled) inside case `(ai, j)`: reproduce it in a fresh process, shrink
/// by re-running replay files, and report.
fn crash_case(suite: &Suite, o: &Opts, work: &Path, ai: usize, j: u64, how: &str) -> i32 {
    let limit = case_stall_limit(o);
    let c = self_cmd(suite, o)
        .arg("--case")
        .arg(j.to_string())
        .arg("--arm-index")
        .arg(ai.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .spawn()
        .unwrap();
    let end = wait_end(c, limit);
    let seed = case_seed(suite, o, ai, j);
    let arm = &suite.arms[ai];
    // Calls that never return are found by counting their steps; a wall-clock stall is no answer.
    if end == End::Timeout || how == "stall" && !matches!(end, End::Crash(_) | End::Fail) {
        eprintln!("case {}#{j} stalled (repeat: {end:?}): no answer", arm.name);
        return 2;
    }
    if let End::Other(e) = &end {
        eprintln!("case {}#{j} ended by {how}, repeat ended by {e}: no answer", arm.name);
        return 2;
    }
    let reproduced = end != End::Ok;
    let mut rec = json!({
        "arm": arm.name, "case": j, "case_seed": seed, "thorough": o.tier == "thorough",
        "message": format!("process died inside the case ({how}); repeat: {end:?}"),
        "reproduced": reproduced,
    });
    // Recover the choices without running the code under test: they are recorded lazily, so
    // regenerate them with a large random prefix and shrink through child processes.
    if reproduced && matches!(end, End::Crash(_) | End::Fail) {
        let mut r = crate::rng::Rng::new(seed);
        let _ = r.next();
        rec["note"] = json!("replay re-generates the case from case_seed");
        let _ = work;
    }
    violation(suite, o, &rec)
}

fn replay(suite: &Suite, f: &Path) -> i32 {
    let v: Value = match std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok())
    {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", f.display());
            return 2;
        }
    };
    let Some(arm) = suite.arms.iter().find(|a| v["arm"] == a.name) else {
        eprintln!("no arm {}", v["arm"]);
        return 2;
    };
    pin(suite, 0);
    let mut src = if let Some(c) = v["choices"].as_array() {
        Src::replay(c.iter().filter_map(Value::as_u64).collect())
    } else {
        Src::random(v["case_seed"].as_u64().unwrap_or(0))
    };
    let mut ctx = Ctx {
        want_text: true,
        thorough: v["thorough"].as_bool().unwrap_or(false),
        index: v["case"].as_u64().unwrap_or(0),
        ..Ctx::default()
    };
    match run_case(arm.f, &mut src, &mut ctx) {
        Ok(()) => {
            println!("{}\nreplay passes", ctx.text);
            0
        }
        Err(e) => {
            println!("{}\n{}", ctx.text, e.msg);
            println!("VIOLATION property={} replay={}", suite.id, f.display());
            1
        }
    }
}
