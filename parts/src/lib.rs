//! Shared by the per-component checks.
use kit::runner::{Arm, CaseFn};

pub fn arm(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Arm {
    Arm { name, quick, thorough, f }
}

/// Route the library's shared-memory steps to the scheduler.
pub fn hook() {
    masstree::sync::set_hook(|ev, addr, at| {
        kit::sched::yield_point(
            match ev {
                masstree::sync::Event::Load => kit::sched::EV_LOAD,
                masstree::sync::Event::Write => kit::sched::EV_WRITE,
                masstree::sync::Event::Spin => kit::sched::EV_SPIN,
            },
            addr,
            at,
        );
    });
}

/// Related 64-bit words: extremes, single-bit and single-byte variations, arbitrary ones.
pub fn words(src: &mut kit::Src, n: usize) -> Vec<u64> {
    let mut out: Vec<u64> = Vec::with_capacity(n);
    while out.len() < n {
        let base = if out.is_empty() || src.chance(1, 3) {
            match src.below(4) {
                0 => *src.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX]),
                1 => src.u64(),
                2 => src.below(4) << (8 * src.below(8)),
                _ => u64::from_be_bytes([b'a' + src.byte() % 3, b'a' + src.byte() % 3, b'a', 0, 0, 0, 0, 0]),
            }
        } else {
            *src.pick(&out)
        };
        out.push(match src.below(5) {
            0 => base,
            1 => base.wrapping_add(1),
            2 => base.wrapping_sub(1),
            3 => base ^ (1 << src.below(64)),
            _ => base ^ (1 << 63),
        });
    }
    out
}

/// A schedule for `n` threads of about `steps` steps each.
pub fn plan(src: &mut kit::Src, n: usize, steps: u64) -> kit::sched::Plan {
    use kit::sched::{Count, Plan, Point, Preempt};
    let first = src.below(n as u64) as u8;
    let np = src.weighted(&[1, 4, 6, 6, 4, 3, 2, 1]);
    if src.chance(1, 2) {
        let points = (0..np)
            .map(|_| Point { th: src.below(n as u64) as u8, at: src.below(steps + 1) as u32, target: src.below(n as u64) as u8 })
            .collect();
        return Plan { first, points, ..Plan::default() };
    }
    let count = if src.chance(1, 2) { Count::All } else { Count::Writes };
    let max = *src.pick(&[2, 6, steps.max(1), 2 * steps.max(1)]);
    let preempts = (0..np)
        .map(|_| Preempt { gap: src.below(max + 1) as u32, target: src.below(n as u64) as u8 })
        .collect();
    Plan { first, preempts, count, points: Vec::new() }
}

/// The switches of a schedule, for reports.
pub fn plan_text(p: &kit::sched::Plan) -> String {
    if p.points.is_empty() {
        format!("start t{} {:?} {:?}", p.first, p.count, p.preempts.iter().map(|x| (x.gap, x.target)).collect::<Vec<_>>())
    } else {
        format!("start t{} before {:?}", p.first, p.points.iter().map(|x| (x.th, x.at, x.target)).collect::<Vec<_>>())
    }
}

/// Why a scheduled run did not finish, if it did not.
pub fn stopped(o: &kit::sched::Outcome) -> Result<(), String> {
    use kit::sched::Stop;
    match &o.stop {
        Stop::Done => Ok(()),
        Stop::Deadlock(d) => Err(format!("every unfinished call waits and nothing can wake it: {d}")),
        Stop::NoProgress(d) => Err(format!("calls did not return under a fair schedule: {d}")),
        Stop::Panicked(p) => Err(format!("a call failed: {p}")),
    }
}

/// Byte strings of up to `max` bytes: few letters, zeros, chunk-aligned lengths.
pub fn bytes(src: &mut kit::Src, max: usize) -> Vec<u8> {
    let n = match src.below(4) {
        0 => src.urange(0, max),
        1 => (8 * src.urange(0, max / 8) + src.urange(0, 2)).saturating_sub(1).min(max),
        2 => src.urange(0, max.min(20)),
        _ => src.urange(0, max.min(9)),
    };
    match src.below(4) {
        0 => (0..n).map(|_| src.byte()).collect(),
        1 => vec![*src.pick(b"\0a\xff"); n],
        2 => (0..n).map(|_| *src.pick(b"\0\x01\x7f\x80\xff")).collect(),
        _ => (0..n).map(|_| b'a' + src.below(2) as u8).collect(),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::from("[");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s.push(']');
    s
}
