//! Key searches against plain counting and scanning.
use kit::{CaseResult, Ctx, Src, Suite, ensure};
use masstree::internode::InternodeNode;
use masstree::ksearch::{self, KeyIndexPosition, simd, simd_search};
use masstree::leaf24::LeafNode24;
use masstree::permuter::Permuter;
use masstree::value::{LeafValue, LeafValueIndex};
use parts::{arm, words};

fn show(k: &[u64]) -> String {
    let v: Vec<String> = k.iter().map(|x| format!("{x:x}")).collect();
    v.join(",")
}

/// The library's vector searches as a CPU without AVX2, or without SSE4.1 too, runs them.
#[cfg(other_cpus)]
mod cpus {
    include!(concat!(env!("OUT_DIR"), "/cpus.rs"));
}

type Search = (&'static str, fn(&[u64], u64) -> Option<usize>, fn(&[u64], usize, u64) -> usize, fn(&[u64], usize, u64) -> u32);

const SEARCHES: &[Search] = &[
    ("this CPU", simd::find_exact_u64, simd::count_le_u64, simd::find_all_matches_u64),
    ("scalar", simd::find_exact_u64_scalar, simd::count_le_u64_scalar, simd::find_all_matches_u64_scalar),
    #[cfg(other_cpus)]
    ("SSE4.1", cpus::sse41::simd::find_exact_u64, cpus::sse41::simd::count_le_u64, cpus::sse41::simd::find_all_matches_u64),
    #[cfg(other_cpus)]
    ("x86-64 baseline", cpus::baseline::simd::find_exact_u64, cpus::baseline::simd::count_le_u64, cpus::baseline::simd::find_all_matches_u64),
];

/// The vector and scalar searches over an unsorted array.
fn arrays(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match src.below(4) {
        0 => src.urange(0, 9),
        1 => *src.pick(&[15usize, 16, 23, 24, 25, 31, 32]),
        2 => src.urange(0, 40),
        _ => src.urange(0, 130),
    };
    let pool = words(src, 12);
    let mut a: Vec<u64> = (0..n).map(|_| *src.pick(&pool)).collect();
    if src.chance(1, 2) {
        a.sort_unstable();
    }
    let off = src.idx(4).min(n);
    let s = &a[off..];
    let target = if src.chance(2, 3) { *src.pick(&pool) } else { words(src, 1)[0] };
    let size = if src.chance(1, 2) { s.len() } else { src.urange(0, s.len()) };
    ctx.say(|| format!("keys [{}] size {size} target {target:x}", show(s)));
    let want = s.iter().position(|k| *k == target);
    for (on, f, _, _) in SEARCHES {
        let got = f(s, target);
        ensure!(got == want, "find_exact ({on}): {got:?}, expected {want:?} in [{}] for {target:x}", show(s));
    }
    let want = s[..size].iter().filter(|k| **k <= target).count();
    for (on, _, f, _) in SEARCHES {
        let got = f(s, size, target);
        ensure!(got == want, "count_le ({on}): {got}, expected {want} in the first {size} of [{}] for {target:x}", show(s));
    }
    // The mask covers at most 32 keys; a length beyond the slice means the whole slice.
    let t = &s[..s.len().min(32)];
    let len = if src.chance(1, 4) { src.urange(0, 32) } else { size.min(t.len()) };
    let mut want = 0u32;
    for (i, k) in t.iter().enumerate().take(len) {
        want |= u32::from(*k == target) << i;
    }
    for (on, _, _, f) in SEARCHES {
        let got = f(t, len, target);
        ensure!(got == want, "find_all ({on}): {got:b}, expected {want:b} in the first {len} of [{}] for {target:x}", show(t));
    }
    ctx.nontrivial = s.len() > 4 && want.count_ones() < s.len() as u32;
    Ok(())
}

fn same(a: &KeyIndexPosition, b: Option<(usize, usize)>, at: usize, what: &str, text: &dyn Fn() -> String) -> CaseResult {
    match b {
        Some((i, p)) => ensure!(a.is_found() && a.i == i && a.slot() == p && a.try_slot() == Some(p),
            "{what}: {a:?}, expected position {i} slot {p}; {}", text()),
        None => ensure!(!a.is_found() && a.i == at && a.try_slot().is_none(), "{what}: {a:?}, expected to miss at {at}; {}", text()),
    }
    Ok(())
}

/// Searches through a permutation, distinct keys.
fn permuted<const W: usize>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut slots = [0u64; W];
    let mut p = Permuter::<W>::empty();
    let mut sorted: Vec<u64> = Vec::new();
    let n = src.urange(0, W);
    let pool = words(src, 20);
    // Some slots carry left-over keys.
    for s in &mut slots {
        *s = *src.pick(&pool);
    }
    for _ in 0..n {
        let k = *src.pick(&pool);
        if let Err(i) = sorted.binary_search(&k) {
            sorted.insert(i, k);
            let s = p.insert_from_back(i);
            slots[s] = k;
        }
    }
    let target = if src.chance(2, 3) { *src.pick(&pool) } else { words(src, 1)[0] };
    let text = || format!("keys [{}] target {target:x}", show(&sorted));
    ctx.say(text);
    let cmp = |slot: usize| target.cmp(&slots[slot]);
    let lb = sorted.partition_point(|k| *k < target);
    let ub = sorted.partition_point(|k| *k <= target);
    let hit = (lb < ub).then(|| (lb, p.get(lb)));
    same(&ksearch::lower_bound_by(sorted.len(), p, cmp), hit, lb, "lower_bound_by", &text)?;
    same(&ksearch::lower_bound_linear_by(sorted.len(), p, cmp), hit, lb, "lower_bound_linear_by", &text)?;
    let got = ksearch::upper_bound_by(sorted.len(), p, cmp);
    ensure!(got == ub, "upper_bound_by: {got}, expected {ub}; {}", text());
    let got = ksearch::upper_bound_linear_by(sorted.len(), p, cmp);
    ensure!(got == ub, "upper_bound_linear_by: {got}, expected {ub}; {}", text());
    ctx.nontrivial = sorted.len() > 1;
    Ok(())
}

/// Routing in an inner node.
fn routing<const W: usize>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let node: Box<InternodeNode<LeafValue<u64>, W>> = InternodeNode::new(src.below(4) as u32);
    let pool = words(src, 24);
    let n = src.urange(0, W);
    let mut keys: Vec<u64> = (0..n).map(|_| *src.pick(&pool)).collect();
    keys.sort_unstable();
    keys.dedup();
    for i in 0..W {
        node.set_ikey(i, *src.pick(&pool));
    }
    for (i, k) in keys.iter().enumerate() {
        node.set_ikey(i, *k);
    }
    node.set_nkeys(keys.len() as u8);
    ctx.say(|| format!("width {W} keys [{}]", show(&keys)));
    for _ in 0..4 {
        let target = if src.chance(2, 3) { *src.pick(&pool) } else { words(src, 1)[0] };
        let ub = keys.partition_point(|k| *k <= target);
        let lb = keys.partition_point(|k| *k < target);
        for (what, got, want) in [
            ("upper_bound_internode", ksearch::upper_bound_internode(target, &*node), ub),
            ("upper_bound_internode_direct", ksearch::upper_bound_internode_direct(target, &*node), ub),
            ("upper_bound_internode_generic", ksearch::upper_bound_internode_generic(target, &*node), ub),
            ("find_insert_position", node.find_insert_position(target), lb),
        ] {
            ensure!(got == want, "{what}({target:x}) = {got}, expected {want} among [{}]", show(&keys));
        }
        for (i, k) in keys.iter().enumerate() {
            ensure!(node.compare_key(target, i) == target.cmp(k), "compare_key({target:x}, {i}) among [{}]", show(&keys));
        }
    }
    ctx.nontrivial = keys.len() > 1;
    Ok(())
}

/// Matching slots of a leaf.
fn leaf(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let arc: Box<LeafNode24<LeafValue<u64>>> = LeafNode24::new();
    let idx: Box<LeafNode24<LeafValueIndex<u64>>> = LeafNode24::new();
    let pool = words(src, 6);
    let mut keys = [0u64; 24];
    for _ in 0..src.urange(0, 40) {
        let i = src.idx(24);
        keys[i] = *src.pick(&pool);
        arc.set_ikey(i, keys[i]);
        idx.set_ikey(i, keys[i]);
    }
    let target = if src.chance(3, 4) { *src.pick(&pool) } else { words(src, 1)[0] };
    let mut want = 0u32;
    for (i, k) in keys.iter().enumerate() {
        want |= u32::from(*k == target) << i;
    }
    ctx.say(|| format!("slots [{}] target {target:x}", show(&keys)));
    ensure!(arc.load_all_ikeys() == keys, "load_all_ikeys differs from [{}]", show(&keys));
    for got in [
        simd_search::find_ikey_matches_leaf24(target, &arc),
        simd_search::find_ikey_matches_leaf24(target, &idx),
        masstree::TreeLeafNode::find_ikey_matches(&*arc, target),
    ] {
        ensure!(got == want, "matches {got:b}, expected {want:b} for {target:x} in [{}]", show(&keys));
    }
    ctx.nontrivial = want != 0 && want != 0xff_ffff;
    Ok(())
}

fn suites() -> Vec<Suite> {
    vec![Suite {
        id: "C20",
        rule: "arrays of more than 4 keys, nodes of at least 2 keys, leaves with some but not all slots matching",
        arms: vec![
            arm("arrays", 19_000_000, 1_300_000_000, arrays),
            arm("permuted15", 4_700_000, 320_000_000, permuted::<15>),
            arm("permuted7", 2_500_000, 170_000_000, permuted::<7>),
            arm("permuted1", 620_000, 21_000_000, permuted::<1>),
            arm("routing15", 4_700_000, 320_000_000, routing::<15>),
            arm("routing7", 1_900_000, 110_000_000, routing::<7>),
            arm("routing1", 620_000, 21_000_000, routing::<1>),
            arm("leaf", 6_200_000, 320_000_000, leaf),
        ],
        assumptions: vec!["sizes passed do not exceed the slice; keys in nodes are distinct and sorted, as the tree keeps them",
            "of the vector variants, the one this machine's CPU selects runs through the library; the SSE4.1 and baseline ones through a second compilation of the same file, on arrays only"],
        pin: true,
        workers: 8,
    }]
}

fn main() {
    kit::runner::main(suites)
}
