//! C26: the diagnostics of a tracing build. Only in builds with that feature.
use crate::conc;
use crate::keys::{self, Key, show};
use crate::seq::bounded;
use crate::tree::Tree;
use crate::{val, walk};
use kit::{CaseResult, Ctx, Src, ensure, fail};
use masstree as mt;
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// The counters against what the calls returned and what the nodes show.
pub fn tally<T: Tree>(t: &T, stored: u64, missed: u64, quiet: bool) -> CaseResult {
    let c = mt::get_all_debug_counters();
    ensure!(
        c.locked_insert + c.cas_insert_success == stored,
        "{stored} inserts succeeded, the counters show {} under a lock and {} without", c.locked_insert, c.cas_insert_success
    );
    ensure!(c.search_not_found == missed, "{missed} reads found nothing, the counter shows {}", c.search_not_found);
    let s = walk::shape(t)?;
    ensure!(
        c.split == s.leaves - s.layers,
        "the map has {} leaves in {} layers, so {} splits; the counter shows {}", s.leaves, s.layers, s.leaves - s.layers, c.split
    );
    if quiet {
        ensure!(c.wrong_leaf_insert == 0, "one thread alone, but {} keys were taken to the wrong leaf", c.wrong_leaf_insert);
        ensure!(c.cas_insert_retry == 0 && c.cas_insert_fallback == 0, "one thread alone, but {c:?}");
        ensure!(c.parent_wait_hits == 0, "one thread alone, but it waited {} times", c.parent_wait_hits);
    }
    ensure!(mt::get_debug_counters() == (c.blink_should_follow, c.search_not_found), "get_debug_counters() = {:?} but {c:?}", mt::get_debug_counters());
    Ok(())
}

/// One thread: every counter after any number of calls.
pub fn counters<T: Tree>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let size = *src.pick(&[60usize, 60, 400, 1500]);
    let mut pool = keys::pool(src, size);
    if pool.is_empty() {
        return Ok(());
    }
    let o = keys::order(src, &mut pool);
    let n = src.urange(0, pool.len());
    ctx.say(|| format!("{} {n} keys ({o}), e.g. {}\n", T::NAME, pool.iter().take(6).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    val::reset();
    let t = T::new();
    mt::reset_debug_counters();
    let (mut stored, mut missed, mut id) = (0u64, 0u64, 0u64);
    let mut m: BTreeMap<Key, u64> = BTreeMap::new();
    for k in &pool[..n] {
        id += 1;
        stored += 1;
        bounded(|| t.insert(k, id));
        m.insert(k.clone(), id);
    }
    tally(&t, stored, missed, true)?;
    for _ in 0..src.logu(120) {
        let k = src.pick(&pool).clone();
        match src.below(5) {
            0 | 1 => {
                id += 1;
                stored += 1;
                ctx.say(|| format!("insert {}; ", show(&k)));
                bounded(|| t.insert(&k, id));
                m.insert(k, id);
            }
            2 | 3 => {
                ctx.say(|| format!("get {}; ", show(&k)));
                let got = bounded(|| t.get(&k)).is_some();
                missed += u64::from(!got);
            }
            _ => {
                ctx.say(|| format!("reset after {stored} inserts; "));
                tally(&t, stored, missed, true)?;
                // Counting starts over, with the splits so far behind it.
                let before = mt::get_all_debug_counters().split;
                mt::reset_debug_counters();
                let c = mt::get_all_debug_counters();
                ensure!(
                    c.split + c.locked_insert + c.cas_insert_success + c.search_not_found + c.blink_should_follow + c.cas_insert_retry
                        + c.cas_insert_fallback + c.advance_blink + c.wrong_leaf_insert + c.blink_advance_anomaly + c.parent_wait_hits
                        + c.parent_wait_total_spins + c.parent_wait_max_spins + c.parent_wait_total_ns + c.parent_wait_max_ns == 0,
                    "not all zero after a reset: {c:?}"
                );
                mt::SPLIT_COUNT.store(before, Relaxed);
                (stored, missed) = (0, 0);
            }
        }
    }
    tally(&t, stored, missed, true)?;
    let s = walk::shape(&t)?;
    ctx.nontrivial = s.leaves > s.layers;
    ctx.count("splits", s.leaves - s.layers);
    ctx.count("inserts", stored);
    ctx.count("misses", missed);
    Ok(())
}

/// The summaries give back each counter, and the averages belong to the totals.
pub fn summary(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let all: [(&str, &AtomicU64); 15] = [
        ("blink_should_follow", &mt::BLINK_SHOULD_FOLLOW_COUNT),
        ("search_not_found", &mt::SEARCH_NOT_FOUND_COUNT),
        ("cas_insert_success", &mt::CAS_INSERT_SUCCESS_COUNT),
        ("cas_insert_retry", &mt::CAS_INSERT_RETRY_COUNT),
        ("cas_insert_fallback", &mt::CAS_INSERT_FALLBACK_COUNT),
        ("locked_insert", &mt::LOCKED_INSERT_COUNT),
        ("split", &mt::SPLIT_COUNT),
        ("advance_blink", &mt::ADVANCE_BLINK_COUNT),
        ("wrong_leaf_insert", &mt::WRONG_LEAF_INSERT_COUNT),
        ("blink_advance_anomaly", &mt::BLINK_ADVANCE_ANOMALY_COUNT),
        ("parent_wait_hits", &mt::PARENT_WAIT_HIT_COUNT),
        ("parent_wait_total_spins", &mt::PARENT_WAIT_TOTAL_SPINS),
        ("parent_wait_max_spins", &mt::PARENT_WAIT_MAX_SPINS),
        ("parent_wait_total_ns", &mt::PARENT_WAIT_TOTAL_NS),
        ("parent_wait_max_ns", &mt::PARENT_WAIT_MAX_NS),
    ];
    mt::reset_debug_counters();
    let mut want: BTreeMap<&str, u64> = BTreeMap::new();
    for (name, c) in &all {
        let v = if src.chance(1, 3) { 0 } else { src.logu(1 << 52) };
        c.store(v, Relaxed);
        want.insert(name, v);
    }
    ctx.say(|| format!("{want:?}"));
    ctx.nontrivial = want.values().filter(|v| **v > 0).count() > 2;
    let c = mt::get_all_debug_counters();
    let got: BTreeMap<&str, u64> = [
        ("blink_should_follow", c.blink_should_follow),
        ("search_not_found", c.search_not_found),
        ("cas_insert_success", c.cas_insert_success),
        ("cas_insert_retry", c.cas_insert_retry),
        ("cas_insert_fallback", c.cas_insert_fallback),
        ("locked_insert", c.locked_insert),
        ("split", c.split),
        ("advance_blink", c.advance_blink),
        ("wrong_leaf_insert", c.wrong_leaf_insert),
        ("blink_advance_anomaly", c.blink_advance_anomaly),
        ("parent_wait_hits", c.parent_wait_hits),
        ("parent_wait_total_spins", c.parent_wait_total_spins),
        ("parent_wait_max_spins", c.parent_wait_max_spins),
        ("parent_wait_total_ns", c.parent_wait_total_ns),
        ("parent_wait_max_ns", c.parent_wait_max_ns),
    ]
    .into();
    ensure!(got == want, "the counters hold {want:?}, the summary says {got:?}");
    let old = mt::get_debug_counters();
    ensure!(old == (c.blink_should_follow, c.search_not_found), "get_debug_counters() = {old:?} with {want:?}");
    let p = mt::get_parent_wait_stats();
    ensure!(
        (p.hits, p.total_spins, p.max_spins) == (c.parent_wait_hits, c.parent_wait_total_spins, c.parent_wait_max_spins),
        "get_parent_wait_stats() = {p:?} with {want:?}"
    );
    #[allow(clippy::cast_precision_loss)]
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs().max(1e-6);
    let h = c.parent_wait_hits as f64;
    let avg = |total: f64| if c.parent_wait_hits == 0 { 0.0 } else { total / h };
    for (name, a, b) in [
        ("avg_spins", p.avg_spins, avg(c.parent_wait_total_spins as f64)),
        ("total_us", p.total_us, c.parent_wait_total_ns as f64 / 1e3),
        ("max_us", p.max_us, c.parent_wait_max_ns as f64 / 1e3),
        ("avg_us", p.avg_us, avg(c.parent_wait_total_ns as f64 / 1e3)),
    ] {
        ensure!(near(a, b), "{name} = {a}, expected {b}, with {want:?}");
    }
    mt::reset_debug_counters();
    for (name, c) in &all {
        ensure!(c.load(Relaxed) == 0, "{name} is {} after a reset", c.load(Relaxed));
    }
    Ok(())
}

/// Several threads under chosen schedules; the counters are summed over all of them.
pub fn shared<T: Tree, const Z: u8>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    conc::case::<T, { conc::COUNTS }, Z>(src, ctx)
}

const LEVELS: [&str; 5] = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"];
/// Text that has to survive the trip into a JSON line.
const TEXTS: [&str; 6] = ["plain", "two words", "a \"quoted\" one", "back\\slash", "line\nbreak", "ünï ✓ \u{1}"];

fn shout(target: u8, level: usize, th: u64, n: u64, text: &str) {
    macro_rules! at {
        ($t:literal) => {
            match level {
                0 => tracing::error!(target: $t, th, n, text, "probe"),
                1 => tracing::warn!(target: $t, th, n, text, "probe"),
                2 => tracing::info!(target: $t, th, n, text, "probe"),
                3 => tracing::debug!(target: $t, th, n, text, "probe"),
                _ => tracing::trace!(target: $t, th, n, text, "probe"),
            }
        };
    }
    match target {
        0 => at!("masstree::probe"),
        1 => at!("masstree"),
        _ => at!("other"),
    }
}

/// The process whose log is read: `init_tracing()`, then the given events and inserts, then the end.
/// A line of input is `thread target level text` or `thread insert`.
pub fn child() {
    let mut script: BTreeMap<u64, Vec<(u8, usize, usize)>> = BTreeMap::new();
    let again = std::env::var("MT_LOG_AGAIN").is_ok();
    for line in std::io::stdin().lines() {
        let v: Vec<u64> = line.unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
        script.entry(v[0]).or_default().push((v[1] as u8, v[2] as usize, v[3] as usize));
    }
    mt::init_tracing();
    if again {
        mt::init_tracing();
    }
    let t = mt::MassTree::<u64>::new();
    let one = |th: u64, ev: &[(u8, usize, usize)]| {
        for (n, (target, level, text)) in ev.iter().enumerate() {
            if *target == 9 {
                for i in 0..*level as u64 {
                    t.insert(&(th << 32 | i).to_be_bytes(), i).unwrap();
                }
            } else {
                shout(*target, *level, th, n as u64, TEXTS[*text]);
            }
        }
        if again {
            mt::init_tracing();
        }
    };
    std::thread::scope(|s| {
        for (th, ev) in script.iter().skip(1) {
            let one = &one;
            s.spawn(move || one(*th, ev));
        }
        if let Some((th, ev)) = script.iter().next() {
            one(*th, ev);
        }
    });
}

/// What `init_tracing()` promises: every event the filter lets through is one JSON line of the log
/// file, and on the console unless that is switched off, also when the process ends right after.
pub fn log(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nt = 1 + src.weighted(&[4, 2, 1]) as u64;
    // Least severe level that passes, by target prefix.
    let (filter, masstree, other): (Option<&str>, usize, usize) = *src.pick(&[
        (None, 3, 0),
        (Some("masstree=info"), 3, 0),
        (Some("masstree=debug"), 4, 0),
        (Some("masstree=trace"), 5, 0),
        (Some("masstree=error"), 1, 0),
        (Some("warn"), 2, 2),
        (Some("off"), 0, 0),
        (Some("other=debug,masstree=warn"), 2, 4),
        (Some("=/=,,["), 3, 3),
    ]);
    let console = *src.pick(&[None, Some("0"), Some("1")]);
    let dir = *src.pick(&[None, Some("deep/er/logs"), Some("x")]);
    let again = src.chance(1, 3);
    let mut input = String::new();
    let mut want: BTreeMap<u64, Vec<(u64, &str, &str, &str)>> = BTreeMap::new();
    let mut total = 0;
    for th in 0..nt {
        let n = src.logu(200);
        for i in 0..n {
            let (target, level, text) = (*src.pick(&[0u64, 0, 1, 2, 9]), src.below(5), src.below(TEXTS.len() as u64));
            if target == 9 {
                input.push_str(&format!("{th} 9 {} 0\n", level * 40));
                continue;
            }
            input.push_str(&format!("{th} {target} {level} {text}\n"));
            let most = if target < 2 { masstree } else { other };
            if (level as usize) < most {
                let name = ["masstree::probe", "masstree", "other"][target as usize];
                want.entry(th).or_default().push((i, LEVELS[level as usize], name, TEXTS[text as usize]));
                total += 1;
            }
        }
    }
    ctx.say(|| format!("threads {nt} filter {filter:?} console {console:?} dir {dir:?} again {again}; {} lines of script, {total} pass\n", input.lines().count()));
    let scratch = std::env::temp_dir().join(format!("masstree-log-{}-{}", std::process::id(), ctx.index));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let r = logged(&scratch, filter, console, dir, again, &input);
    let text = r.1.unwrap_or_default();
    let _ = std::fs::remove_dir_all(&scratch);
    let out = r.0?;
    let mut got: BTreeMap<u64, Vec<(u64, String, String, String)>> = BTreeMap::new();
    let mut lines = 0u64;
    for (at, line) in text.lines().enumerate() {
        lines += 1;
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(e) => fail!("line {} of the log is not JSON ({e}): {line:.200}", at + 1),
        };
        let s = |k: &str| v[k].as_str().unwrap_or_default().to_string();
        for k in ["timestamp", "level", "target", "filename", "threadId"] {
            ensure!(!s(k).is_empty(), "line {} of the log has no {k}: {line:.300}", at + 1);
        }
        ensure!(v["line_number"].is_u64() && v["fields"].is_object(), "line {} of the log lacks line number or fields: {line:.300}", at + 1);
        let Some(rank) = LEVELS.iter().position(|l| *l == s("level")) else { fail!("level {:?} in the log", s("level")) };
        let most = if s("target").starts_with("masstree") { masstree } else { other };
        ensure!(rank < most, "filter {filter:?}, but the log has {line:.300}");
        if v["fields"]["message"] == "probe" {
            let f = &v["fields"];
            got.entry(f["th"].as_u64().unwrap_or(99)).or_default().push((
                f["n"].as_u64().unwrap_or(u64::MAX),
                s("level"),
                s("target"),
                f["text"].as_str().unwrap_or_default().to_string(),
            ));
        }
    }
    for th in 0..nt {
        let w: Vec<_> = want.remove(&th).unwrap_or_default().into_iter().map(|(n, l, t, x)| (n, l.to_string(), t.to_string(), x.to_string())).collect();
        let g = got.remove(&th).unwrap_or_default();
        ensure!(
            w == g,
            "thread {th} logged {} events the filter lets through, {} are in the file; first that differs: {:?} against {:?}",
            w.len(), g.len(), w.iter().zip(g.iter().map(Some).chain(std::iter::repeat(None))).find(|(a, b)| Some(*a) != *b), g.iter().find(|e| !w.contains(e))
        );
    }
    ensure!(got.is_empty(), "the log has events of threads {:?}", got.keys());
    // The console carries the same events in a form of its own.
    let shown = out.matches("probe").count() - out.matches("masstree::probe").count();
    if filter == Some("=/=,,[") {
        // Which filter the console falls back to is not stated.
    } else if console == Some("0") {
        ensure!(out.is_empty(), "MASSTREE_LOG_CONSOLE=0, but the console shows {out:.200}");
    } else {
        ensure!(shown == total, "{total} events pass the filter, the console shows {shown} (MASSTREE_LOG_CONSOLE {console:?})");
    }
    ctx.nontrivial = total > 0;
    ctx.count("log lines", lines);
    ctx.count("events", total as u64);
    Ok(())
}

/// Runs the child in `scratch`: its console output and the log file.
fn logged(scratch: &std::path::Path, filter: Option<&str>, console: Option<&str>, dir: Option<&str>, again: bool, input: &str) -> (Result<String, kit::Fail>, Option<String>) {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.current_dir(scratch).env_remove("RUST_LOG").env_remove("MASSTREE_LOG_DIR").env_remove("MASSTREE_LOG_CONSOLE").env_remove("NO_COLOR");
    c.env("MT_LOG_CHILD", "1");
    if again {
        c.env("MT_LOG_AGAIN", "1");
    }
    if let Some(f) = filter {
        c.env("RUST_LOG", f);
    }
    if let Some(f) = console {
        c.env("MASSTREE_LOG_CONSOLE", f);
    }
    if let Some(d) = dir {
        c.env("MASSTREE_LOG_DIR", d);
    }
    let mut p = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("the child starts");
    let mut stdin = p.stdin.take().unwrap();
    let text = input.to_string();
    let w = std::thread::spawn(move || drop(stdin.write_all(text.as_bytes())));
    let o = p.wait_with_output().unwrap();
    let _ = w.join();
    let file = std::fs::read_to_string(scratch.join(dir.unwrap_or("logs")).join("masstree.jsonl"));
    if !o.status.success() {
        return (Err(kit::Fail::new(format!("the process that logs ended with {}", o.status))), None);
    }
    match file {
        Ok(f) => (Ok(String::from_utf8_lossy(&o.stdout).into_owned()), Some(f)),
        Err(e) => (Err(kit::Fail::new(format!("no log file in {dir:?}: {e}"))), None),
    }
}
