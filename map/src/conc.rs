//! Scheduled arms: a few threads over a prefilled map, run under a generated schedule, judged by
//! per-key linearizability and by what is left in the map.
use crate::keys::{self, Key, show};
use crate::tree::Tree;
use crate::val::{self, Payload};
use kit::sched::{self, Conflicts, Count, Outcome, Plan, Point, Preempt, Stop};
use kit::{CaseResult, Ctx, Src, ensure, fail};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    /// Every call's result is explained by one order per key.
    Linear,
    /// What is in the map afterwards.
    Final,
    /// Everything returns.
    Progress,
    /// References under a guard.
    Refs,
    /// Drops.
    Life,
    Shape,
    /// The debug counters of a tracing build.
    Counts,
    /// What the map's allocator was told.
    Nodes,
}

/// Size class of a scenario; each is an arm of its own because their costs differ widely.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
    /// Two threads, one or two calls each, few keys, fine-grained schedules.
    Duel,
    /// Two to four threads around one or two leaves.
    Small,
    /// Internode levels and layer growth.
    Grow,
    /// One call is suspended again and again while another thread splits the leaf it works on.
    Chase,
    /// One call is suspended while thousands of others run.
    Held,
    /// Neighbouring full leaves split at the same time.
    Near,
    /// Several threads with dozens of calls each, switched all the time.
    Storm,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Put,
    Get,
    Ref,
    Len,
    /// End the guard and take a new one.
    Renew,
}

#[derive(Clone, Copy, Debug)]
struct Op {
    kind: Kind,
    key: usize,
}

#[derive(Clone, Debug)]
struct Rec {
    th: usize,
    kind: Kind,
    key: usize,
    /// Value written by a put.
    put: u64,
    /// Value returned.
    got: Option<u64>,
    len: usize,
    inv: u64,
    res: u64,
}

struct Scen {
    pool: Arc<Vec<Key>>,
    prefill: Vec<usize>,
    ops: Vec<Vec<Op>>,
    shape: &'static str,
    bulk: bool,
    duel: bool,
}

fn gap(src: &mut Src, max: u64) -> u32 {
    src.logu(max) as u32
}

fn plan(src: &mut Src, n: usize, bulk: bool, duel: bool) -> Plan {
    let count = match src.weighted(&[3, 3, 4]) {
        0 => Count::All,
        1 => Count::Writes,
        _ => Count::Sites { salt: src.below(1 << 24) as u32, one_in: *src.pick(&[6u32, 3, 12]) },
    };
    let np = if bulk {
        1 + src.weighted(&[4, 2, 1])
    } else if duel {
        src.weighted(&[1, 4, 6, 8, 6, 3, 2])
    } else {
        src.weighted(&[1, 5, 6, 5, 4, 2, 2, 2, 2])
    };
    let max: u64 = match count {
        Count::All if duel => *src.pick(&[24u64, 8, 50]),
        Count::Writes if duel => *src.pick(&[5u64, 2, 12]),
        Count::All => *src.pick(&[60u64, 15, 150, 500]),
        Count::Writes => *src.pick(&[12u64, 5, 30, 80]),
        Count::Sites { .. } => *src.pick(&[1u64, 3, 8, 20]),
    };
    let first = src.below(n as u64) as u8;
    let preempts = (0..np)
        .map(|i| Preempt {
            gap: if bulk && i > 0 {
                gap(src, 200_000)
            } else if duel {
                src.below(max + 1) as u32
            } else {
                gap(src, max)
            },
            target: src.below(n as u64) as u8,
        })
        .collect();
    Plan { first, preempts, count, points: Vec::new() }
}

/// Switches throughout a long run, drawn from few numbers.
fn storm_plan(src: &mut Src, n: usize) -> Plan {
    let count = match src.weighted(&[4, 3, 3]) {
        0 => Count::All,
        1 => Count::Writes,
        _ => Count::Sites { salt: src.below(1 << 24) as u32, one_in: *src.pick(&[6u32, 3, 12, 30]) },
    };
    let mean = match count {
        Count::All => *src.pick(&[20u64, 5, 60, 150]),
        Count::Writes => *src.pick(&[6u64, 2, 20, 50]),
        Count::Sites { .. } => *src.pick(&[4u64, 1, 12, 40]),
    };
    let style = src.below(3);
    let np = if src.chance(7, 8) { 30_000 } else { src.logu(3000) as usize };
    let first = src.below(n as u64) as u8;
    let mut r = kit::Rng::new(src.below(1 << 32));
    let (mut turn, mut left) = (0u8, 0u64);
    let preempts = (0..np)
        .map(|i| {
            if left == 0 {
                left = 4 + r.below(60);
                turn = r.below(4) as u8;
            }
            left -= 1;
            let target = match style {
                // anyone
                0 => r.below(12) as u8,
                // phases: in turn either way, or two threads while the others stand still
                1 => match turn {
                    0 => 0,
                    1 => n as u8 - 2,
                    2 if i % 2 == 0 => 0,
                    2 => n as u8 - 2,
                    _ => r.below(12) as u8,
                },
                _ => u8::from(r.below(4) == 0),
            };
            // mostly short, sometimes a long stretch
            let gap = if r.below(24) == 0 { mean * (1 + r.below(40)) } else { r.below(2 * mean + 1) };
            Preempt { gap: gap as u32, target }
        })
        .collect();
    Plan { first, preempts, count, points: Vec::new() }
}

/// Keys around which the threads work, with how many of them are there beforehand.
fn scenario<T: Tree>(src: &mut Src, focus: Focus, size: Size, thorough: bool) -> Result<Scen, kit::Fail> {
    let upd = if matches!(focus, Focus::Refs | Focus::Life) { 6 } else { 2 };
    let shape = match size {
        Size::Duel => src.weighted(&[6, 8, 0, 0, upd, 3, 3, 0, 0, 0]),
        Size::Small => src.weighted(&[6, 6, 0, 0, upd, 2, 3, 3, 0, 4]),
        Size::Grow => 2 + src.weighted(&[1, 1]),
        Size::Held => 8,
        Size::Chase => 9,
        Size::Near => 10,
        Size::Storm => 11,
    };
    let mut pool: Vec<Key>;
    let mut hot: Vec<usize> = Vec::new(); // preferred keys
    let mut pre: Vec<usize>;
    let name;
    let mut bulk = false;
    let mut fill: Option<std::ops::Range<usize>> = None;
    // Keys for the first thread, the second, ...
    let mut own: Vec<Vec<usize>> = Vec::new();
    match shape {
        0 => {
            // one leaf close to its capacity
            name = "leaf-split";
            let pfx = keys::prefix(src, 24);
            let n = 30 + src.idx(40);
            let start = *src.pick(&[0x6161_6161_0000_0000u64, 0, u64::MAX - 200]);
            let stride = *src.pick(&[2u64, 1, 1 << 8]);
            pool = keys::ints(&pfx, start, stride, n);
            let have = 18 + src.idx(8);
            let mut order: Vec<usize> = (0..n).collect();
            let mode = src.below(3);
            if mode == 1 {
                order.reverse();
            } else if mode == 2 {
                let mut r = kit::Rng::new(src.below(1 << 20));
                for i in (1..n).rev() {
                    order.swap(i, r.below(i as u64 + 1) as usize);
                }
            }
            pre = order[..have].to_vec();
            hot.extend(order[have..].iter().take(6));
            for _ in 0..3 {
                hot.push(pre[src.idx(have)]);
            }
        }
        1 => {
            // two or more keys meeting in the same slot
            name = "new-layer";
            let words = src.urange(1, 4);
            let p: Key = vec![*src.pick(b"q\0\xff"); words * 8];
            pool = Vec::new();
            let m = 2 + src.idx(8);
            for i in 0..m {
                let mut k = p.clone();
                match src.weighted(&[3, 2, 2, 1]) {
                    0 => k.push(i as u8),
                    1 => k.extend(std::iter::repeat_n(b'z', 1 + i * 3)),
                    2 => {
                        let l = src.idx(p.len() + 1);
                        k.truncate(l);
                    }
                    _ => {
                        let l = k.len();
                        k[l - 1] ^= 1 + (i as u8 & 3);
                        k.push(i as u8);
                    }
                }
                pool.push(k);
            }
            if src.chance(1, 4) {
                pool.push(vec![]);
            }
            pool = keys::dedup(pool);
            let m = pool.len();
            hot.extend(0..m);
            pre = (0..m).filter(|_| src.chance(2, 5)).collect();
            // fill the leaf so that a split can meet the layer creation
            let filler = if src.chance(1, 2) { src.idx(26) } else { 0 };
            for i in 0..filler {
                pool.push(vec![b'a' + i as u8, 1]);
                pre.push(pool.len() - 1);
            }
            if filler > 0 && src.chance(1, 2) {
                for i in 0..3 {
                    pool.push(vec![b'a' + i as u8, 9]);
                    hot.push(pool.len() - 1);
                }
            }
            pool_fix(&mut pool, &mut pre, &mut hot);
        }
        2 | 3 => {
            // internode at its capacity (2: top layer, 3: behind a prefix)
            name = if shape == 2 { "internode-split" } else { "layer-growth" };
            let pfx = if shape == 3 {
                let words = src.urange(1, 3);
                vec![b'w'; words * 8]
            } else {
                vec![]
            };
            let deep = src.chance(1, 4);
            let have = if shape == 3 && src.chance(1, 2) {
                20 + src.idx(20)
            } else if deep {
                150 + src.idx(if thorough { 4000 } else { 1500 })
            } else {
                150 + src.idx(240)
            };
            let fresh = 40;
            let stride = *src.pick(&[4u64, 256, 1 << 20]);
            let start = *src.pick(&[1u64 << 32, (1 << 63) - 0x1000, 3]);
            let asc = keys::ints(&pfx, start, stride, have);
            pool = asc;
            match src.below(3) {
                0 => {}
                1 => pool.reverse(),
                _ => keys::shuffle(src, &mut pool),
            }
            pre = (0..have).collect();
            // fresh keys: beyond the end, and in the gaps
            let local = src.idx(have);
            for i in 0..fresh as u64 {
                let v = if i % 2 == 0 {
                    start.wrapping_add((have as u64 + i / 2).wrapping_mul(stride))
                } else {
                    start.wrapping_add((local as u64 + i / 6).wrapping_mul(stride) + 1 + (i / 2) % 3)
                };
                let mut k = pfx.clone();
                k.extend_from_slice(&v.to_be_bytes());
                pool.push(k);
            }
            let span = src.urange(1, 12);
            for _ in 0..8 {
                hot.push(have + src.idx(fresh.min(span * 3)));
            }
            for _ in 0..4 {
                hot.push(src.idx(have));
            }
            for d in 0..2 {
                let i = (local + d).min(have - 1);
                hot.push(i);
            }
            pool_fix(&mut pool, &mut pre, &mut hot);
        }
        4 => {
            name = "updates";
            pool = keys::family(src, 12);
            pool = keys::dedup(pool);
            if pool.is_empty() {
                pool.push(b"u".to_vec());
            }
            pre = (0..pool.len()).filter(|_| src.chance(3, 4)).collect();
            let n = pool.len().min(1 + src.idx(3));
            hot.extend(0..n);
        }
        5 => {
            name = "deep-chain";
            let len = 24 + src.idx(232);
            let b = *src.pick(b"d\0\xff");
            pool = (0..8u8)
                .map(|i| {
                    let mut k = vec![b; len];
                    let at = match i % 3 {
                        0 => len - 1,
                        1 => len / 2,
                        _ => len / 8 * 8 - 1,
                    };
                    k[at] = k[at].wrapping_add(i + 1);
                    if i == 7 {
                        k.truncate(8);
                    }
                    k
                })
                .collect();
            pool = keys::dedup(pool);
            pre = (0..pool.len()).filter(|_| src.chance(1, 4)).collect();
            hot.extend(0..pool.len());
        }
        6 => {
            name = "same-slice";
            pool = keys::around(src);
            pool = keys::dedup(pool);
            let n = pool.len();
            let cut = src.urange(0, n);
            let mut ord: Vec<usize> = (0..n).collect();
            let mut r = kit::Rng::new(src.below(1 << 20));
            for i in (1..n).rev() {
                ord.swap(i, r.below(i as u64 + 1) as usize);
            }
            pre = ord[..cut].to_vec();
            hot.extend(ord[cut..].iter().take(6));
            for _ in 0..3 {
                hot.push(src.idx(n));
            }
        }
        7 => {
            name = "mixed";
            pool = keys::pool(src, 60);
            if pool.is_empty() {
                pool.push(vec![]);
            }
            let n = pool.len();
            let all = src.chance(1, 3);
            pre = (0..n).filter(|_| all || src.chance(1, 2)).collect();
            for _ in 0..8 {
                hot.push(src.idx(n));
            }
        }
        9 => {
            // one thread fills the same leaf through several splits
            name = "refill";
            let pfx = if src.chance(1, 2) { vec![b'f'; 8] } else { vec![] };
            let have = 14 + src.idx(11);
            let more = 8 + src.idx(34);
            pool = keys::ints(&pfx, 1 << 16, 1 << 8, have);
            let at = match src.below(3) {
                0 => 0,
                1 => have / 2 - 1,
                _ => src.idx(have),
            } as u64;
            let down = src.chance(1, 3);
            for i in 0..more as u64 {
                let off = if down { more as u64 - i } else { 1 + i };
                let mut k = pfx.clone();
                k.extend_from_slice(&((1u64 << 16) + (at << 8) + off).to_be_bytes());
                pool.push(k);
            }
            pre = (0..have).collect();
            for _ in 0..4 {
                hot.push(have / 2 + src.idx(have - have / 2));
            }
            hot.push(src.idx(have));
            hot.push(have + src.idx(more));
            fill = Some(have..have + more);
        }
        10 => {
            // Neighbouring leaves, each full or one short of it; every thread has one of its own.
            name = "neighbours";
            let pfx = if src.chance(1, 3) { vec![b'n'; 8] } else { vec![] };
            let n = match src.weighted(&[4, 3, 1]) {
                0 => 26 + src.idx(30),
                1 => 40 + src.idx(100),
                _ => 180 + src.idx(if thorough { 3000 } else { 300 }),
            };
            pool = keys::ints(&pfx, 1 << 32, 1 << 16, n);
            match src.below(3) {
                0 => {}
                1 => pool.reverse(),
                _ => keys::shuffle(src, &mut pool),
            }
            pre = (0..n).collect();
            let trial = T::new();
            for (i, k) in pool.iter().enumerate() {
                crate::seq::bounded(|| trial.insert(k, i as u64));
            }
            let spans: Vec<_> = crate::walk::shape(&trial)?.spans.into_iter().filter(|s| s.prefix == pfx).collect();
            ensure!(!spans.is_empty(), "{n} keys of one layer are in no leaf");
            let wide = (2 + src.weighted(&[3, 1])).min(spans.len());
            let at = src.idx(spans.len() - wide + 1);
            let mut late = Vec::new();
            for s in &spans[at..at + wide] {
                let mut here: Vec<u64> = (0..n as u64).map(|i| (1 << 32) + (i << 16)).collect();
                here.retain(|k| s.lo <= *k && s.hi.is_none_or(|h| *k < h));
                ensure!(!here.is_empty(), "a leaf for {:x}..{:x?}, where there is no key", s.lo, s.hi);
                let short = src.weighted(&[5, 1]);
                let many = 24usize.saturating_sub(s.size + short);
                let mut fresh = Vec::new();
                for j in 0..many + 4 {
                    let i = match src.below(4) {
                        0 => 0,
                        1 => here.len() - 1,
                        _ => src.idx(here.len()),
                    };
                    let mut k = pfx.clone();
                    k.extend_from_slice(&(here[i] + 1 + j as u64).to_be_bytes());
                    pool.push(k);
                    if j < many { pre.push(pool.len() - 1) } else { fresh.push(pool.len() - 1) }
                }
                late.extend_from_slice(&fresh);
                own.push(fresh);
            }
            hot = late;
            for _ in 0..2 {
                hot.push(pre[src.idx(pre.len())]);
            }
            let by = src.idx(own.len());
            own.rotate_left(by);
        }
        11 => {
            name = "storm";
            let cap = if thorough { 600 } else { 240 };
            pool = match src.weighted(&[4, 3, 2, 2]) {
                0 => {
                    let pfx = keys::prefix(src, 24);
                    let n = 60 + src.idx(cap);
                    let mut k = keys::ints(&pfx, 1 << 32, *src.pick(&[1u64, 3, 1 << 16]), n);
                    match src.below(3) {
                        0 => {}
                        1 => k.reverse(),
                        _ => keys::shuffle(src, &mut k),
                    }
                    k
                }
                1 => keys::pool(src, 150),
                2 => {
                    // several layers that grow side by side
                    let m = 2 + src.idx(4);
                    let n = 20 + src.idx(cap / 3);
                    let mut k = Vec::new();
                    for i in 0..n as u64 {
                        for j in 0..m as u8 {
                            let mut p = vec![b'A' + j; 8 * usize::from(j)];
                            p.extend_from_slice(&(i * 7919 % 10_007).to_be_bytes());
                            k.push(p);
                        }
                    }
                    k
                }
                _ => {
                    let n = 30 + src.idx(100);
                    keys::layers(src, n)
                }
            };
            pool = keys::dedup(pool);
            if pool.is_empty() {
                pool.push(vec![]);
            }
            let n = pool.len();
            let have = match src.below(3) {
                0 => 0,
                1 => n / 2,
                _ => src.idx(n),
            };
            pre = (0..have).collect();
            let nt = 2 + src.weighted(&[1, 3, 4]);
            // each thread its share, in order, or all of them anywhere
            let share = src.below(3);
            let mut r = kit::Rng::new(src.below(1 << 32));
            for t in 0..nt {
                own.push((0..n).filter(|i| if share == 0 { i % nt == t && *i >= have } else { share == 1 && *i >= have || r.below(nt as u64) == 0 }).collect());
            }
        }
        _ => {
            // one thread is held up while another grows the same layer a lot
            name = "held-up";
            bulk = true;
            let pfx = match src.below(3) {
                0 => vec![],
                1 => vec![b'h'; 8],
                _ => vec![b'h'; 16],
            };
            let n = 300 + src.idx(3600);
            let start = 1u64 << 40;
            pool = keys::ints(&pfx, start, 2, n);
            let mut far = pfx.clone();
            far.extend_from_slice(&u64::MAX.to_be_bytes());
            pool.push(far);
            let mut inner = pfx.clone();
            inner.extend_from_slice(&(start + 2 * (n as u64 - 2) + 1).to_be_bytes());
            pool.push(inner);
            if !pfx.is_empty() {
                pool.push(b"zz".to_vec());
            }
            let have = 2 + src.idx(30);
            let desc = src.chance(1, 3);
            if desc {
                pool[..n].reverse();
            }
            pre = (0..have).collect();
            hot.extend([n, n + 1, n - 1]);
        }
    }
    // A duel: two threads, one or two calls each, on few keys, finely interleaved.
    let near = size == Size::Near;
    let duel = size == Size::Duel || (size == Size::Grow && src.chance(1, 3));
    let chase = size == Size::Chase;
    if size == Size::Storm {
        let puts = if matches!(focus, Focus::Shape | Focus::Nodes | Focus::Final) { 24 } else { 8 };
        let most = if thorough { 160 } else { 70 };
        let mut r = kit::Rng::new(src.below(1 << 32));
        let mut ops = Vec::new();
        for mine in &own {
            let n = 8 + src.idx(most);
            let mut next = 0;
            let v = (0..n)
                .map(|_| {
                    let kind = match r.below(puts + 4) {
                        0 => Kind::Get,
                        1 => Kind::Ref,
                        2 if focus == Focus::Linear => Kind::Len,
                        3 if focus != Focus::Shape => Kind::Renew,
                        _ => Kind::Put,
                    };
                    let key = if kind == Kind::Put && next < mine.len() && r.below(8) != 0 {
                        next += 1;
                        mine[next - 1]
                    } else {
                        r.below(pool.len() as u64) as usize
                    };
                    Op { kind, key }
                })
                .collect();
            ops.push(v);
        }
        return Ok(Scen { pool: Arc::new(pool), prefill: pre, ops, shape: name, bulk: false, duel: false });
    }
    let nt = if near {
        own.len().max(2)
    } else if bulk || duel || chase {
        2
    } else { 2 + src.weighted(&[5, 3, 1]) };
    let maxops = if duel || near {
        2
    } else if thorough {
        9
    } else {
        6
    };
    if duel {
        let keep = 1 + src.idx(3);
        let from = if hot.is_empty() { 0 } else { src.idx(hot.len()) };
        hot.rotate_left(from);
        hot.truncate(keep);
    }
    let mut ops: Vec<Vec<Op>> = Vec::new();
    let pw: &[u64] = match focus {
        Focus::Refs => &[4, 1, 5, 0, 1],
        Focus::Life => &[7, 2, 1, 0, 1],
        Focus::Final => &[8, 2, 1, 1, 0],
        Focus::Shape | Focus::Nodes => &[12, 2, 0, 0, 0],
        _ => &[5, 3, 2, 1, 1],
    };
    for t in 0..nt {
        let mut v = Vec::new();
        if bulk && t == 1 {
            let n = pool.len().saturating_sub(3);
            for k in pre.len()..n {
                v.push(Op { kind: Kind::Put, key: k });
            }
        } else {
            let n = 1 + src.idx(maxops);
            if t == 0 && let Some(r) = &fill {
                v.extend(r.clone().map(|key| Op { kind: Kind::Put, key }));
                ops.push(v);
                continue;
            }
            let n = if chase { 1 } else if fill.is_some() { n.min(2) } else { n };
            // a thread is mostly a writer or mostly a reader
            let bias = src.below(3);
            for _ in 0..n {
                let mut kind = [Kind::Put, Kind::Get, Kind::Ref, Kind::Len, Kind::Renew][src.weighted(pw)];
                if v.is_empty() && (duel && t == 0 || near && !src.chance(1, 6)) {
                    kind = Kind::Put;
                } else if bias == 1 && kind == Kind::Get {
                    kind = Kind::Put;
                } else if bias == 2 && kind == Kind::Put && src.chance(2, 3) {
                    kind = Kind::Get;
                }
                let key = if kind == Kind::Put && t < own.len() && !src.chance(1, 6) {
                    *src.pick(&own[t])
                } else if !hot.is_empty() && !src.chance(1, 8) {
                    *src.pick(&hot)
                } else {
                    src.idx(pool.len())
                };
                v.push(Op { kind, key });
            }
        }
        ops.push(v);
    }
    Ok(Scen { pool: Arc::new(pool), prefill: pre, ops, shape: name, bulk, duel: duel || near })
}

/// Remove duplicate keys while keeping the index lists meaningful.
fn pool_fix(pool: &mut Vec<Key>, pre: &mut Vec<usize>, hot: &mut [usize]) {
    let mut first: HashMap<Key, usize> = HashMap::new();
    let mut map = Vec::with_capacity(pool.len());
    let mut out: Vec<Key> = Vec::new();
    for k in pool.iter() {
        let i = *first.entry(k.clone()).or_insert_with(|| {
            out.push(k.clone());
            out.len() - 1
        });
        map.push(i);
    }
    *pool = out;
    let mut seen = vec![false; pool.len()];
    pre.iter_mut().for_each(|i| *i = map[*i]);
    pre.retain(|&i| !std::mem::replace(&mut seen[i], true));
    hot.iter_mut().for_each(|i| *i = map[*i]);
}

fn text(s: &Scen) -> String {
    let mut o = format!("shape {} prefilled {} of {} keys", s.shape, s.prefill.len(), s.pool.len());
    if s.prefill.len() <= 40 {
        o.push_str(&format!(
            ": {}",
            s.prefill.iter().map(|&i| show(&s.pool[i])).collect::<Vec<_>>().join(" ")
        ));
    }
    o.push('\n');
    for (t, ops) in s.ops.iter().enumerate() {
        o.push_str(&format!(
            "t{t}: {}{}\n",
            ops.iter().take(16).map(|p| format!("{:?} {}", p.kind, show(&s.pool[p.key]))).collect::<Vec<_>>().join(", "),
            if ops.len() > 16 { format!(", … {} ops", ops.len()) } else { String::new() }
        ));
    }
    o
}

fn plan_text(p: &Plan, n: usize) -> String {
    if !p.points.is_empty() {
        return format!(
            "start with t{}, then {}\n",
            p.first as usize % n,
            p.points.iter().map(|x| format!("before step {} of t{} switch({})", x.at, x.th, x.target)).collect::<Vec<_>>().join(", ")
        );
    }
    format!(
        "start with t{}, then {}{}\n",
        p.first as usize % n,
        match p.count {
            Count::All => String::new(),
            Count::Writes => "(counting stores) ".into(),
            Count::Sites { salt, one_in } => format!("(counting steps at sites {salt}/{one_in}) "),
        },
        p.preempts.iter().take(60).map(|p| format!("after {} switch({})", p.gap + 1, p.target)).collect::<Vec<_>>().join(", ")
    )
}

/// A schedule whose switches sit at steps that touch memory another thread also touches
/// (as seen in the two unpreempted runs), or close to such a step.
fn directed(src: &mut Src, conf: &[[Conflicts; 2]], len: &[u32], one: bool) -> Plan {
    let n = conf.len();
    let first = src.below(n as u64) as u8;
    let np = if one { 1 } else { 1 + src.weighted(&[4, 6, 5, 3, 1, 1]) };
    let mut points = Vec::new();
    let mut th = first;
    for _ in 0..np {
        if src.chance(1, 5) {
            th = src.below(n as u64) as u8;
        }
        let which = src.idx(2);
        let c = &conf[th as usize][which];
        let at = match src.weighted(&[4, 4, 3, 1]) {
            0 if !c.all.is_empty() => *src.pick(&c.all),
            1 if !c.all.is_empty() => {
                let k = src.idx(c.by_site.len());
                *src.pick(&c.by_site[k])
            }
            2 if !c.all.is_empty() => *src.pick(&c.all) + 1 + src.below(3) as u32,
            _ => src.below(u64::from(len[th as usize]) + 1) as u32,
        };
        let target = src.below(n as u64) as u8;
        points.push(Point { th, at, target });
        th = (th + 1) % n as u8;
    }
    Plan { first, preempts: Vec::new(), count: Count::All, points }
}

/// The given schedule with one more switch, at a step its run took after its last one.
fn extend(src: &mut Src, p: &Plan, conf: &[Conflicts]) -> Plan {
    let n = conf.len();
    let last = p.points[p.points.len() - 1].th as usize;
    let mut th = (last + 1 + src.idx(n - 1)) % n;
    if src.chance(1, 8) {
        th = last;
    }
    let c = &conf[th];
    let mut p = p.clone();
    if !c.all.is_empty() {
        let at = if !c.pending.is_empty() && src.chance(1, 2) {
            *src.pick(&c.pending) + 1
        } else if src.chance(3, 4) {
            let k = src.idx(c.by_site.len());
            *src.pick(&c.by_site[k])
        } else {
            *src.pick(&c.all)
        };
        p.points.push(Point { th: th as u8, at: at + src.weighted(&[6, 1]) as u32, target: src.below(n as u64) as u8 });
    }
    p
}

type Log<T> = Arc<Mutex<Vec<(Rec, Option<<T as Tree>::Out>)>>>;

fn thread_body<T: Tree>(t: &T, th: usize, pool: &[Key], ops: &[Op], base: u64, log: &Log<T>, keep: bool) {
    let mut mine: Vec<(Rec, Option<T::Out>)> = Vec::with_capacity(ops.len());
    let mut i = 0;
    while i < ops.len() {
        let g = t.guard();
        let mut held: Vec<(&T::P, u64)> = Vec::new();
        while i < ops.len() {
            let op = ops[i];
            i += 1;
            if op.kind == Kind::Renew {
                break;
            }
            let k = &pool[op.key];
            let mut rec = Rec { th, kind: op.kind, key: op.key, put: 0, got: None, len: 0, inv: sched::tick(), res: 0 };
            let mut out = None;
            match op.kind {
                Kind::Put => {
                    sched::label("insert");
                    rec.put = base + i as u64;
                    let o = t.insert_g(k, rec.put, &g);
                    rec.res = sched::tick();
                    rec.got = o.as_ref().map(T::out_id);
                    out = o;
                }
                Kind::Get => {
                    sched::label("get");
                    let o = t.get_g(k, &g);
                    rec.res = sched::tick();
                    rec.got = o.as_ref().map(T::out_id);
                    out = o;
                }
                Kind::Ref => {
                    sched::label("get_ref");
                    let o = t.get_ref(k, &g);
                    rec.res = sched::tick();
                    if let Some(r) = o {
                        rec.got = Some(r.id());
                        held.push((r, r.id()));
                    }
                }
                Kind::Len => {
                    sched::label("len");
                    rec.len = t.len();
                    rec.res = sched::tick();
                }
                Kind::Renew => unreachable!(),
            }
            for (r, id) in &held {
                match r.intact() {
                    Ok(x) if x == *id => {}
                    o => panic!("guarded reference to value {id} now reads {o:?}"),
                }
                if T::ARC && val::drops(*id) > 0 {
                    panic!("value {id} was dropped while a guarded reference exists");
                }
            }
            mine.push((rec, if keep { out } else { None }));
        }
        drop(held);
        drop(g);
    }
    sched::label("done");
    log.lock().unwrap().extend(mine);
}

fn explain(recs: &[Rec], pool: &[Key], key: usize) -> String {
    let mut v: Vec<&Rec> = recs.iter().filter(|r| r.key == key && r.kind != Kind::Len).collect();
    v.sort_by_key(|r| r.inv);
    let mut o = format!("history of {}:", show(&pool[key]));
    for r in v.iter().take(30) {
        match r.kind {
            Kind::Put => o.push_str(&format!(" t{}[{}..{}] insert {} -> {:?};", r.th, r.inv, r.res, r.put, r.got)),
            _ => o.push_str(&format!(" t{}[{}..{}] {:?} -> {:?};", r.th, r.inv, r.res, r.kind, r.got)),
        }
    }
    o
}

/// Per-key check: puts form one chain from the initial value; with reads placed next to the put
/// they saw, no operation may be ordered before one that had already finished.
/// Returns the last value of each key.
fn linear(recs: &[Rec], pool: &[Key], init: &BTreeMap<usize, u64>) -> Result<BTreeMap<usize, u64>, String> {
    let mut by: BTreeMap<usize, Vec<&Rec>> = BTreeMap::new();
    for r in recs {
        if r.kind != Kind::Len {
            by.entry(r.key).or_default().push(r);
        }
    }
    let mut last = init.clone();
    for (key, rs) in by {
        let start = init.get(&key).copied();
        let mut next: HashMap<Option<u64>, &Rec> = HashMap::new();
        for r in rs.iter().filter(|r| r.kind == Kind::Put) {
            if let Some(o) = next.insert(r.got, r) {
                return Err(format!(
                    "inserts of {} and {} both returned {:?} as the previous value; {}",
                    o.put, r.put, r.got, explain(recs, pool, key)
                ));
            }
        }
        let mut pos: HashMap<Option<u64>, u64> = HashMap::new();
        pos.insert(start, 1);
        let mut cur = start;
        let mut placed: Vec<(u64, &Rec)> = Vec::new();
        let mut n = 0u64;
        while let Some(r) = next.remove(&cur) {
            n += 1;
            placed.push((2 * n, r));
            cur = Some(r.put);
            pos.insert(cur, 2 * n + 1);
        }
        if let Some((o, r)) = next.iter().next() {
            return Err(format!(
                "insert {} returned {o:?}, which was not the value before it; {}",
                r.put, explain(recs, pool, key)
            ));
        }
        for r in rs.iter().filter(|r| r.kind != Kind::Put) {
            match pos.get(&r.got) {
                Some(&p) => placed.push((p, r)),
                None => {
                    return Err(format!("a read returned {:?}, never a value of the key; {}", r.got, explain(recs, pool, key)));
                }
            }
        }
        placed.sort_by_key(|p| p.1.inv);
        for (i, (p, a)) in placed.iter().enumerate() {
            for (q, b) in &placed[i + 1..] {
                if a.res < b.inv && p > q {
                    return Err(format!(
                        "no single order explains the results: the call at {} had returned before the one at {} began; {}",
                        a.inv, b.inv, explain(recs, pool, key)
                    ));
                }
            }
        }
        if let Some(v) = cur {
            last.insert(key, v);
        }
    }
    Ok(last)
}

fn lens(recs: &[Rec], init: &BTreeMap<usize, u64>) -> CaseResult {
    let mut first: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    for r in recs.iter().filter(|r| r.kind == Kind::Put && !init.contains_key(&r.key)) {
        let e = first.entry(r.key).or_insert((u64::MAX, u64::MAX));
        e.0 = e.0.min(r.inv);
        // Only the call that created the key has to have counted it when it returns.
        if r.got.is_none() {
            e.1 = e.1.min(r.res);
        }
    }
    for r in recs.iter().filter(|r| r.kind == Kind::Len) {
        let lo = init.len() + first.values().filter(|f| f.1 < r.inv).count();
        let hi = init.len() + first.values().filter(|f| f.0 < r.res).count();
        ensure!(
            r.len >= lo && r.len <= hi,
            "len() = {} at [{}..{}] while between {lo} and {hi} keys were in the map", r.len, r.inv, r.res
        );
    }
    Ok(())
}

fn stopped(o: &Outcome) -> Result<(), String> {
    match &o.stop {
        Stop::Done => Ok(()),
        Stop::Deadlock(d) => Err(format!("every unfinished call waits and nothing can wake it: {d}")),
        Stop::NoProgress(d) => Err(format!("calls did not return under a fair schedule: {d}")),
        Stop::Panicked(p) => Err(format!("a call failed: {p}")),
    }
}

pub fn run<T: Tree>(src: &mut Src, ctx: &mut Ctx, focus: Focus, size: Size) -> CaseResult {
    let s = scenario::<T>(src, focus, size, ctx.thorough)?;
    ctx.say(|| format!("{} {}", T::NAME, text(&s)));
    ctx.count(s.shape, 1);
    let n = s.ops.len();
    if size == Size::Held {
        let p = plan(src, n, true, false);
        return one::<T>(&s, &p, src, ctx, focus, false);
    }
    if size == Size::Storm {
        for _ in 0..6 {
            let p = storm_plan(src, n);
            one::<T>(&s, &p, src, ctx, focus, false)?;
            if src.chance(1, 16) {
                break;
            }
        }
        return Ok(());
    }
    // Two runs without preemption show which steps touch shared memory.
    let mut conf: Vec<[Conflicts; 2]> = vec![Default::default(); n];
    let mut len = vec![0u32; n];
    for (w, first) in [0u8, 1].into_iter().enumerate() {
        let p = Plan { first, ..Plan::default() };
        one::<T>(&s, &p, src, ctx, focus, true)?;
        for (t, c) in sched::conflicts(n, false).into_iter().enumerate() {
            conf[t][w] = c;
        }
        for (t, l) in sched::local_steps(n).into_iter().enumerate() {
            len[t] = len[t].max(l);
        }
    }
    let cap = match size {
        Size::Grow => 24,
        _ => 60,
    };
    // Chains of ever longer schedules, or a mixture.
    let style: &[u64] = if size == Size::Chase || src.chance(1, 2) { &[0, 1, 15] } else { &[3, 4, 5] };
    // The previous schedule, and what its run did after the last switch.
    let mut prev: Option<(Plan, Vec<Conflicts>)> = None;
    for _ in 0..cap {
        if !src.chance(31, 32) {
            break;
        }
        let p = match (&prev, src.weighted(style)) {
            (_, 0) => plan(src, n, false, s.duel),
            (Some((p, c)), 2) if p.points.len() < 6 => extend(src, p, c),
            _ => directed(src, &conf, &len, style[0] == 0),
        };
        one::<T>(&s, &p, src, ctx, focus, true)?;
        prev = None;
        if p.preempts.is_empty() {
            let points = sched::fired();
            if !points.is_empty() {
                prev = Some((Plan { points, ..p }, sched::conflicts(n, true)));
            }
        }
    }
    Ok(())
}

/// One run of a scenario under one schedule, and its verdict.
fn one<T: Tree>(s: &Scen, p: &Plan, src: &mut Src, ctx: &mut Ctx, focus: Focus, record: bool) -> CaseResult {
    let n = s.ops.len();
    val::reset();
    let t = Arc::new(T::new());
    #[cfg(feature = "traced")]
    masstree::reset_debug_counters();
    let mut init: BTreeMap<usize, u64> = BTreeMap::new();
    {
        let g = t.guard();
        for (i, &k) in s.prefill.iter().enumerate() {
            let id = i as u64 + 1;
            let old = crate::seq::bounded(|| t.insert_g(&s.pool[k], id, &g));
            ensure!(old.is_none(), "prefill: insert({}) returned a value", show(&s.pool[k]));
            init.insert(k, id);
        }
    }
    let log: Log<T> = Arc::new(Mutex::new(Vec::new()));
    let pool = s.pool.clone();
    let keep = matches!(focus, Focus::Life);
    let mut base = s.prefill.len() as u64 + 10;
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let total_ops: usize = s.ops.iter().map(Vec::len).sum();
    for (th, ops) in s.ops.iter().cloned().enumerate() {
        let (t, pool, log) = (t.clone(), pool.clone(), log.clone());
        let b = base;
        base += ops.len() as u64 + 2;
        jobs.push(Box::new(move || thread_body::<T>(&t, th, &pool, &ops, b, &log, keep)));
    }
    let slice = if s.bulk { 50_000_000 } else { 20_000 };
    let budget = 400_000 + total_ops as u64 * 40_000;
    let out = sched::run(jobs, p.clone(), budget, slice, record);
    ctx.count("schedules", 1);
    ctx.count("steps", out.steps);
    ctx.count("switches", out.switches);
    ctx.count("waits", out.forced);
    let verdict = judge::<T>(s, &out, t, log, init, base, src, ctx, focus);
    if ctx.want_text && verdict.is_err() || ctx.text.len() < 1200 {
        ctx.say(|| plan_text(p, n));
    }
    verdict
}

#[allow(clippy::too_many_arguments)]
fn judge<T: Tree>(
    s: &Scen, out: &Outcome, t: Arc<T>, log: Log<T>, init: BTreeMap<usize, u64>, base: u64,
    src: &mut Src, ctx: &mut Ctx, focus: Focus,
) -> CaseResult {
    let pool = s.pool.clone();
    if let Err(e) = stopped(out) {
        std::mem::forget(t);
        fail!("{e}");
    }
    let mut logged = std::mem::take(&mut *log.lock().unwrap());
    logged.sort_by_key(|r| r.0.inv);
    let recs: Vec<Rec> = logged.iter().map(|r| r.0.clone()).collect();
    let puts = recs.iter().filter(|r| r.kind == Kind::Put).count();
    let mut interesting = out.switches >= 2 && puts >= 1;
    ctx.count("overlapping", u64::from(overlap(&recs)));
    if ctx.want_text && ctx.text.len() < 1200 {
        ctx.text.push_str(&format!("{} steps, {} switches; ", out.steps, out.switches));
        for r in recs.iter().take(20) {
            ctx.text.push_str(&format!("t{}[{}..{}] {:?} {} -> {:?}; ", r.th, r.inv, r.res, r.kind, show(&pool[r.key]), r.got));
        }
        ctx.text.push('\n');
    }
    match focus {
        Focus::Linear => {
            let last = linear(&recs, &pool, &init).map_err(kit::Fail::new)?;
            final_reads(&*t, &pool, &last)?;
            lens(&recs, &init)?;
        }
        Focus::Final => final_state(&*t, &pool, &recs, &init, base)?,
        Focus::Shape => {
            let mut want: BTreeMap<Key, Option<u64>> = init.iter().map(|(k, v)| (pool[*k].clone(), Some(*v))).collect();
            for r in recs.iter().filter(|r| r.kind == Kind::Put) {
                // Several writers may have been last; C06 and C07 decide that.
                want.insert(pool[r.key].clone(), None);
            }
            let s = crate::walk::check(&*t, &want)?;
            ctx.count("layers", s.layers);
            ctx.count("inner nodes", s.inners);
        }
        Focus::Counts => {
            #[cfg(feature = "traced")]
            {
                let missed = recs.iter().filter(|r| r.kind == Kind::Get && r.got.is_none()).count();
                crate::diag::tally(&*t, (s.prefill.len() + puts) as u64, missed as u64, false)?;
            }
        }
        Focus::Nodes => {
            let shape = crate::walk::shape(&*t)?;
            t.settled(&shape)?;
            ctx.count("nodes", shape.nodes.len() as u64);
            ctx.nontrivial |= interesting;
            ctx.count("interleaved", u64::from(interesting));
            let Ok(tree) = Arc::try_unwrap(t) else { fail!("map still shared") };
            return tree.ended((s.prefill.len() + puts) as u64);
        }
        Focus::Progress => {
            // The map still answers: every key can be read and written again by one thread.
            for k in pool.iter().take(64) {
                crate::seq::bounded(|| t.get(k).is_some());
                crate::seq::bounded(|| t.insert(k, 1).is_some());
            }
            ensure_usable(&*t, &pool)?;
        }
        Focus::Refs => {
            for r in &recs {
                if let (Kind::Ref | Kind::Get, Some(v)) = (r.kind, r.got) {
                    let ok = init.get(&r.key) == Some(&v)
                        || recs.iter().any(|w| w.kind == Kind::Put && w.key == r.key && w.put == v && w.inv < r.res);
                    ensure!(ok, "{:?} of {} returned {v}, which was never stored there", r.kind, show(&pool[r.key]));
                }
            }
            interesting = recs.iter().any(|r| {
                r.kind == Kind::Ref
                    && r.got.is_some()
                    && recs.iter().any(|w| w.kind == Kind::Put && w.th != r.th && w.key == r.key)
            });
        }
        Focus::Life => {
            let last = linear(&recs, &pool, &init);
            let Ok(tree) = Arc::try_unwrap(t) else { fail!("map still shared") };
            if T::ARC {
                if let Ok(last) = &last {
                    for (k, id) in last {
                        ensure!(val::drops(*id) == 0, "value {id} of {} was dropped while in the map", show(&pool[*k]));
                    }
                }
                for (r, o) in &logged {
                    if let Some(o) = o {
                        let id = T::out_id(o);
                        ensure!(val::drops(id) == 0, "value {id} returned by t{} was dropped while held", r.th);
                    }
                }
            }
            let early = src.chance(1, 2);
            let logged = if early {
                drop(logged);
                Vec::new()
            } else {
                logged
            };
            drop(tree);
            for (_, o) in &logged {
                if let Some(o) = o {
                    T::out_id(o);
                }
            }
            drop(logged);
            if T::ARC {
                let mut ids: Vec<u64> = init.values().copied().collect();
                ids.extend(recs.iter().filter(|r| r.kind == Kind::Put).map(|r| r.put));
                for id in ids {
                    let d = val::drops(id);
                    ensure!(d == 1, "value {id} was dropped {d} times after the map and all handles ended");
                }
                ensure!(val::double_drops() == 0, "a value was dropped twice");
            }
            ctx.nontrivial |= out.switches >= 2 && recs.iter().any(|r| r.kind == Kind::Put && r.got.is_some());
            return Ok(());
        }
    }
    ctx.nontrivial |= interesting;
    ctx.count("interleaved", u64::from(interesting));
    let Ok(tree) = Arc::try_unwrap(t) else { fail!("map still shared") };
    drop(tree);
    Ok(())
}

fn overlap(recs: &[Rec]) -> bool {
    // recs sorted by inv
    let mut max_res = 0;
    for r in recs.iter().take(200) {
        if r.inv < max_res {
            return true;
        }
        max_res = max_res.max(r.res);
    }
    false
}

fn final_reads<T: Tree>(t: &T, pool: &[Key], last: &BTreeMap<usize, u64>) -> CaseResult {
    for (i, k) in pool.iter().enumerate() {
        let want = last.get(&i).copied();
        let got = crate::seq::bounded(|| t.get(k)).map(|o| T::out_id(&o));
        ensure!(got == want, "after all threads finished, get({}) = {got:?}, expected {want:?}", show(k));
    }
    Ok(())
}

/// Union of what was inserted, nothing else, each once, and the map still takes updates.
fn final_state<T: Tree>(t: &T, pool: &[Key], recs: &[Rec], init: &BTreeMap<usize, u64>, base: u64) -> CaseResult {
    let mut cands: BTreeMap<usize, Vec<u64>> = init.iter().map(|(k, v)| (*k, vec![*v])).collect();
    for r in recs.iter().filter(|r| r.kind == Kind::Put) {
        let e = cands.entry(r.key).or_default();
        if init.get(&r.key).is_some_and(|v| e.first() == Some(v)) {
            e.remove(0); // overwritten at least once
        }
        e.push(r.put);
    }
    let n = cands.len();
    ensure!(t.len() == n, "len() = {} after all threads finished, {n} distinct keys were inserted", t.len());
    ensure!(t.is_empty() == (n == 0), "is_empty() wrong with {n} keys");
    let mut seen: BTreeMap<usize, u64> = BTreeMap::new();
    for (i, k) in pool.iter().enumerate() {
        let g = t.guard();
        let got = crate::seq::bounded(|| t.get_g(k, &g)).map(|o| T::out_id(&o));
        let again = crate::seq::bounded(|| t.get_ref(k, &g)).map(Payload::id);
        ensure!(got == again, "get({}) = {got:?} but get_ref = {again:?}", show(k));
        match (got, cands.get(&i)) {
            (None, None) => {}
            (None, Some(c)) => fail!("{} was inserted ({c:?}) but is missing", show(k)),
            (Some(v), None) => fail!("{} was never inserted but holds {v}", show(k)),
            (Some(v), Some(c)) => {
                ensure!(c.contains(&v), "{} holds {v}, expected one of {c:?}", show(k));
                seen.insert(i, v);
            }
        }
    }
    let mut near = Vec::new();
    for k in pool.iter().take(8) {
        crate::seq::neighbours(k, &mut near);
    }
    for q in &near {
        if !pool.contains(q) {
            let got = crate::seq::bounded(|| t.get(q)).map(|o| T::out_id(&o));
            ensure!(got.is_none(), "{} was never inserted but holds {got:?}", show(q));
        }
    }
    for (id, (i, v)) in (base + 10..).zip(&seen) {
        let old = crate::seq::bounded(|| t.insert(&pool[*i], id)).map(|o| T::out_id(&o));
        ensure!(old == Some(*v), "update of {} afterwards returned {old:?}, the key held {v}", show(&pool[*i]));
    }
    ensure!(t.len() == n, "len() = {} after updating the {n} keys", t.len());
    Ok(())
}

fn ensure_usable<T: Tree>(t: &T, pool: &[Key]) -> CaseResult {
    for k in pool.iter().take(64) {
        ensure!(crate::seq::bounded(|| t.get(k)).is_some(), "{} cannot be read back", show(k));
    }
    Ok(())
}

/// Const-generic entry points: `F` selects the focus, `Z` the size class.
pub fn case<T: Tree, const F: u8, const Z: u8>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = [Focus::Linear, Focus::Final, Focus::Progress, Focus::Refs, Focus::Life, Focus::Shape, Focus::Counts, Focus::Nodes][F as usize];
    let z = [Size::Duel, Size::Small, Size::Grow, Size::Held, Size::Chase, Size::Near, Size::Storm][Z as usize];
    run::<T>(src, ctx, f, z)
}

pub const LINEAR: u8 = 0;
pub const FINAL: u8 = 1;
pub const PROGRESS: u8 = 2;
pub const REFS: u8 = 3;
pub const LIFE: u8 = 4;
pub const SHAPE: u8 = 5;
pub const COUNTS: u8 = 6;
pub const NODES: u8 = 7;
