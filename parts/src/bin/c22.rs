//! Value slots against a plain enum and a reference count per value.
use kit::{CaseResult, Ctx, Src, Suite, ensure};
use masstree::ValueSlot;
use masstree::value::{LeafValue, LeafValueIndex};
use parts::arm;
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

/// A value whose copies are counted.
#[derive(Debug)]
struct Counted {
    id: u64,
    live: Arc<AtomicI64>,
    check: u64,
}
impl Counted {
    fn new(id: u64, live: &Arc<AtomicI64>) -> Self {
        live.fetch_add(1, SeqCst);
        Self { id, live: Arc::clone(live), check: !id }
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.live.fetch_sub(1, SeqCst);
        self.check = 0;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum M {
    Empty,
    Value(u64),
    Layer(usize),
}

fn same_state<S: ValueSlot>(s: &S, m: M, id: impl Fn(&S::Output) -> u64, what: &str) -> CaseResult {
    let (e, v, l) = (s.is_empty(), s.is_value(), s.is_layer());
    let want = (m == M::Empty, matches!(m, M::Value(_)), matches!(m, M::Layer(_)));
    ensure!((e, v, l) == want, "{what}: empty {e} value {v} layer {l}, expected {m:?}");
    let got = s.try_get().map(|o| id(&o));
    ensure!(got == if let M::Value(x) = m { Some(x) } else { None }, "{what}: reads {got:?}, expected {m:?}");
    let got = s.try_layer().map(|p| p as usize);
    ensure!(got == if let M::Layer(x) = m { Some(x) } else { None }, "{what}: layer {got:?}, expected {m:?}");
    Ok(())
}

/// Arc storage: slots, outputs held outside and raw pointers, with the count of each value.
fn shared(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    type S = LeafValue<Counted>;
    let live: Arc<AtomicI64> = Arc::default();
    let nslots = src.urange(1, 4);
    let mut slots: Vec<(S, M)> = (0..nslots)
        .map(|_| if src.chance(1, 2) { (S::default(), M::Empty) } else { (S::empty(), M::Empty) })
        .collect();
    let mut outs: Vec<(Arc<Counted>, u64)> = Vec::new();
    let mut raws: Vec<(*mut u8, u64)> = Vec::new();
    let mut backing = vec![0u64; 4];
    let layers: Vec<*mut u8> = backing.iter_mut().map(|x| (&raw mut *x).cast()).collect();
    let mut next = 1u64;
    let mut moved = 0;
    let steps = src.urange(1, 40);
    for _ in 0..steps {
        let i = src.idx(nslots);
        let op = src.below(16);
        match op {
            0 => {
                outs.push((<S as ValueSlot>::into_output(Counted::new(next, &live)), next));
                next += 1;
            }
            1 | 2 => {
                if let Some((o, id)) = outs.pop() {
                    slots[i] = (S::from_output(o), M::Value(id));
                    moved += 1;
                }
            }
            3 | 4 => {
                // A layer is never exchanged for a value: its pointer would be lost.
                if let (Some((o, id)), false) = (outs.last().map(|(o, id)| (Arc::clone(o), *id)), slots[i].0.is_layer()) {
                    let old = slots[i].0.swap_output(o);
                    let want = if let M::Value(x) = slots[i].1 { Some(x) } else { None };
                    ensure!(old.as_ref().map(|o| o.id) == want, "exchanging slot {i} returned {:?}, expected {want:?}", old.map(|o| o.id));
                    if let Some(o) = old {
                        let id = o.id;
                        outs.push((o, id));
                    }
                    slots[i].1 = M::Value(id);
                    moved += 1;
                }
            }
            5 => {
                let t = ValueSlot::take(&mut slots[i].0);
                let m = std::mem::replace(&mut slots[i].1, M::Empty);
                same_state(&t, m, |o| o.id, "what was taken")?;
                if src.chance(1, 2) {
                    let j = src.idx(nslots);
                    slots[j] = (t, m);
                }
            }
            6 => {
                let p = *src.pick(&layers);
                if src.chance(1, 2) {
                    slots[i].0.set_layer(p);
                } else {
                    slots[i].0 = <S as ValueSlot>::layer(p);
                }
                slots[i].1 = M::Layer(p as usize);
            }
            7 => {
                let c = slots[i].0.clone();
                let m = slots[i].1;
                let j = src.idx(nslots);
                slots[j] = (c, m);
            }
            8 => {
                if let Some(o) = slots[i].0.try_get() {
                    let id = o.id;
                    outs.push((o, id));
                }
            }
            9 => {
                if let Some((o, id)) = outs.last() {
                    raws.push((<S as ValueSlot>::output_to_raw(o), *id));
                    moved += 1;
                }
            }
            10 => {
                if let Some((o, id)) = outs.pop() {
                    raws.push((<S as ValueSlot>::output_consume_to_raw(o), id));
                    moved += 1;
                }
            }
            11 => {
                if let Some((p, id)) = raws.last() {
                    // SAFETY: the pointer holds one count of a live value.
                    let o = unsafe { <S as ValueSlot>::output_from_raw(*p) };
                    ensure!(o.id == *id && o.check == !*id, "value {id} reads back {} from its raw pointer", o.id);
                    outs.push((o, *id));
                }
            }
            12 => {
                if !raws.is_empty() {
                    let k = src.idx(raws.len());
                    let (p, _) = raws.swap_remove(k);
                    // SAFETY: as above; the count is given up here.
                    unsafe { <S as ValueSlot>::cleanup_value_ptr(p) };
                }
            }
            13 => {
                let a = slots[i].0.try_clone_arc();
                if let Some(a) = a {
                    let b = slots[i].0.clone_arc();
                    ensure!(Arc::ptr_eq(&a, &b) && Arc::ptr_eq(&a, slots[i].0.as_value()), "clone_arc and as_value differ");
                    drop(b);
                    ensure!(slots[i].0.try_as_value().is_some_and(|x| Arc::ptr_eq(x, &a)), "try_as_value differs");
                    ensure!(Arc::ptr_eq(slots[i].0.as_value_mut(), &a), "as_value_mut differs");
                } else {
                    let s = &slots[i].0;
                    let refused = catch_unwind(AssertUnwindSafe(|| s.clone_arc())).is_err()
                        && catch_unwind(AssertUnwindSafe(|| Arc::clone(s.as_value()))).is_err();
                    ensure!(refused && s.try_as_value().is_none(), "a slot that holds {:?} gives a value", slots[i].1);
                }
            }
            14 => {
                let s = &slots[i].0;
                let got = catch_unwind(AssertUnwindSafe(|| s.as_layer() as usize)).ok();
                let want = if let M::Layer(p) = slots[i].1 { Some(p) } else { None };
                ensure!(got == want && s.try_as_layer().map(|p| p as usize) == want, "as_layer gives {got:?}, expected {want:?}");
            }
            _ => {
                if let Some(k) = (!outs.is_empty()).then(|| src.idx(outs.len())) {
                    outs.swap_remove(k);
                }
            }
        }
        ctx.say(|| format!("{op}@{i} "));
        for (k, (s, m)) in slots.iter().enumerate() {
            same_state(s, *m, |o| o.id, &format!("slot {k}"))?;
            ensure!((s.is_empty(), s.is_value(), s.is_layer()) == (*m == M::Empty, matches!(m, M::Value(_)), matches!(m, M::Layer(_))),
                "slot {k} names another state than {m:?}");
            let dbg = format!("{s:?}");
            ensure!(!dbg.is_empty(), "no debug text");
        }
        // Each value has as many holders as the model says, and lives exactly while it has one.
        let mut alive = 0;
        for id in 1..next {
            let in_slots: Vec<&Arc<Counted>> = slots.iter().filter_map(|(s, m)| if *m == M::Value(id) { s.try_as_value() } else { None }).collect();
            let in_outs: Vec<&Arc<Counted>> = outs.iter().filter(|(_, x)| *x == id).map(|(o, _)| o).collect();
            let in_raws = raws.iter().filter(|(_, x)| *x == id).count();
            let want = in_slots.len() + in_outs.len() + in_raws;
            alive += i64::from(want > 0);
            if let Some(o) = in_slots.first().or(in_outs.first()) {
                ensure!(Arc::strong_count(o) == want, "value {id} has {} holders, expected {want}", Arc::strong_count(o));
                ensure!(o.check == !id, "value {id} was released while held");
            }
        }
        ensure!(live.load(SeqCst) == alive, "{} values are alive, expected {alive}", live.load(SeqCst));
    }
    drop(slots);
    drop(outs);
    for (p, _) in raws {
        // SAFETY: as above.
        unsafe { <S as ValueSlot>::cleanup_value_ptr(p) };
    }
    ensure!(live.load(SeqCst) == 0, "{} values are alive at the end", live.load(SeqCst));
    ctx.nontrivial = moved >= 2;
    ctx.count("moves", moved);
    Ok(())
}

/// Inline storage of one plain type.
fn inline_of<V: Copy + PartialEq + Debug + 'static>(src: &mut Src, ctx: &mut Ctx, make: fn(u64) -> V) -> CaseResult {
    type S<V> = LeafValueIndex<V>;
    let n = src.urange(1, 4);
    let mut slots: Vec<(S<V>, M)> = (0..n).map(|_| (if src.chance(1, 2) { S::default() } else { S::empty() }, M::Empty)).collect();
    let mut raws: Vec<(*mut u8, u64, (i64, i64))> = Vec::new();
    let mut backing = vec![0u64; 3];
    let layers: Vec<*mut u8> = backing.iter_mut().map(|x| (&raw mut *x).cast()).collect();
    let mut next = 1u64;
    let mut moved = 0;
    // Memory one raw pointer holds, and whether giving it up returns exactly that.
    let delta = |a: (i64, i64), b: (i64, i64)| (b.0 - a.0, b.1 - a.1);
    let free = |p: *mut u8, cost: (i64, i64)| -> CaseResult {
        let a = kit::alloc::live();
        // SAFETY: made by output_to_raw or output_consume_to_raw below.
        unsafe { <S<V> as ValueSlot>::cleanup_value_ptr(p) };
        let got = delta(kit::alloc::live(), a);
        ensure!(got == cost, "a stored value took {cost:?} bytes and blocks, releasing it returned {got:?}");
        Ok(())
    };
    let r = (|| -> CaseResult {
        for _ in 0..src.urange(1, 30) {
            let i = src.idx(n);
            let op = src.below(9);
            match op {
                0 => {
                    slots[i] = (S::from_output(<S<V> as ValueSlot>::into_output(make(next))), M::Value(next));
                    next += 1;
                    moved += 1;
                }
                1 | 2 => {
                    if !slots[i].0.is_layer() {
                        let old = slots[i].0.swap_output(make(next));
                        let want = if let M::Value(x) = slots[i].1 { Some(make(x)) } else { None };
                        ensure!(old == want, "exchanging returned {old:?}, expected {want:?}");
                        slots[i].1 = M::Value(next);
                        next += 1;
                        moved += 1;
                    }
                }
                3 => {
                    let t = ValueSlot::take(&mut slots[i].0);
                    let m = std::mem::replace(&mut slots[i].1, M::Empty);
                    let j = src.idx(n);
                    slots[j] = (t, m);
                }
                4 => {
                    let p = *src.pick(&layers);
                    if src.chance(1, 2) {
                        slots[i].0.set_layer(p);
                    } else {
                        slots[i].0 = <S<V> as ValueSlot>::layer(p);
                    }
                    slots[i].1 = M::Layer(p as usize);
                }
                5 => {
                    let j = src.idx(n);
                    let c = slots[i];
                    slots[j] = c;
                }
                6 | 7 => {
                    let v = make(next);
                    let a = kit::alloc::live();
                    let p = if op == 6 { <S<V> as ValueSlot>::output_to_raw(&v) } else { <S<V> as ValueSlot>::output_consume_to_raw(v) };
                    let cost = delta(a, kit::alloc::live());
                    ensure!(!p.is_null(), "a raw pointer is null, which means an empty slot");
                    ensure!(p as usize % align_of::<V>() == 0, "a raw pointer is not aligned to {}", align_of::<V>());
                    raws.push((p, next, cost));
                    next += 1;
                    moved += 1;
                }
                _ => {
                    if !raws.is_empty() {
                        let k = src.idx(raws.len());
                        let (p, _, cost) = raws.swap_remove(k);
                        free(p, cost)?;
                    }
                }
            }
            ctx.say(|| format!("{op}@{i} "));
            for (k, (s, m)) in slots.iter().enumerate() {
                let (e, v, l) = (ValueSlot::is_empty(s), ValueSlot::is_value(s), ValueSlot::is_layer(s));
                ensure!((e, v, l) == (*m == M::Empty, matches!(m, M::Value(_)), matches!(m, M::Layer(_))), "slot {k}: empty {e} value {v} layer {l}, expected {m:?}");
                ensure!((s.is_empty(), s.is_value(), s.is_layer()) == (e, v, l), "slot {k} names another state than {m:?}");
                let want = if let M::Value(x) = m { Some(make(*x)) } else { None };
                if v {
                    ensure!(Some(s.value()) == want, "value() of slot {k} differs");
                }
                if l {
                    ensure!(Some(s.as_layer()) == s.try_as_layer(), "as_layer() of slot {k} differs");
                }
                if op == 8 && k == i && next % 8 == 0 {
                    ensure!(!format!("{s:?}").is_empty(), "no debug text");
                    ensure!((v || catch_unwind(AssertUnwindSafe(|| s.value())).is_err()) && (l || catch_unwind(AssertUnwindSafe(|| s.as_layer())).is_err()),
                        "slot {k} gives out what it does not hold");
                }
                ensure!(s.try_get() == want && s.try_value() == want, "slot {k} reads {:?}, expected {want:?}", s.try_get());
                let want = if let M::Layer(x) = m { Some(*x) } else { None };
                ensure!(ValueSlot::try_layer(s).map(|p| p as usize) == want && s.try_as_layer().map(|p| p as usize) == want, "slot {k} has another layer");
            }
            // Stored values stay as they are, whatever happens to the others, and reading leaves them there.
            for (p, x, _) in &raws {
                // SAFETY: as above.
                let (a, b) = unsafe { (<S<V> as ValueSlot>::output_from_raw(*p), *p.cast::<V>()) };
                ensure!(a == make(*x) && b == make(*x), "a stored value reads {a:?}, expected {:?}", make(*x));
            }
        }
        Ok(())
    })();
    for (p, _, cost) in raws {
        free(p, cost)?;
    }
    r?;
    ctx.nontrivial = moved >= 2;
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(64))]
struct Wide([u8; 64]);

fn inline(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match src.below(7) {
        0 => inline_of::<u64>(src, ctx, |x| x.wrapping_mul(0x9e37_79b9_7f4a_7c15)),
        1 => inline_of::<u8>(src, ctx, |x| x as u8),
        2 => inline_of::<()>(src, ctx, |_| ()),
        3 => inline_of::<u128>(src, ctx, |x| u128::from(x) << 77 | u128::from(x)),
        4 => inline_of::<Wide>(src, ctx, |x| Wide([x as u8; 64])),
        5 => inline_of::<Option<std::num::NonZeroU32>>(src, ctx, |x| std::num::NonZeroU32::new(x as u32 % 3)),
        _ => inline_of::<[u32; 5]>(src, ctx, |x| [x as u32, 1, 2, !(x as u32), 7]),
    }
}

fn suites() -> Vec<Suite> {
    vec![Suite {
        id: "C22",
        rule: "at least two values moved through slots or raw pointers",
        arms: vec![arm("shared", 3_200_000, 210_000_000, shared), arm("inline", 4_800_000, 310_000_000, inline)],
        assumptions: vec!["a slot that holds a layer is not exchanged for a value, as the function requires"],
        pin: false,
        workers: 8,
    }]
}

#[global_allocator]
static A: kit::alloc::CheckedAlloc = kit::alloc::CheckedAlloc;

fn main() {
    kit::runner::main(suites)
}
