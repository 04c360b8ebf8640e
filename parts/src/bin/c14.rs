//! Slot permutations against a plain list.
use kit::{CaseResult, Ctx, Src, Suite, ensure};
use masstree::freeze24::Freeze24Utils;
use masstree::leaf_trait::TreePermutation;
use masstree::permuter::Permuter;
use masstree::permuter24::Permuter24;
use parts::arm;

trait Perm: Copy {
    const W: usize;
    fn empty() -> Self;
    fn make_sorted(n: usize) -> Self;
    fn size(&self) -> usize;
    fn get(&self, i: usize) -> usize;
    fn back(&self) -> usize;
    fn back_at_offset(&self, o: usize) -> usize;
    fn set_size(&mut self, n: usize);
    fn set(&mut self, i: usize, slot: usize);
    fn swap_free(&mut self, i: usize, j: usize);
    fn insert(&mut self, i: usize) -> usize;
    fn insert_imm(&self, i: usize) -> (Self, usize);
    fn remove_to_back(&mut self, i: usize);
    fn remove(&mut self, i: usize);
    fn exchange(&mut self, i: usize, j: usize);
    fn rotate(&mut self, i: usize, j: usize);
    fn reload(&self) -> Self;
    /// The same operations through the generic interface, where it has them.
    fn t_insert(&mut self, i: usize) -> usize;
    fn t_insert_imm(&self, i: usize) -> (Self, usize);
    fn t_swap_free(&mut self, i: usize, j: usize);
    fn t_view(&self) -> (usize, Vec<usize>, usize);
    fn t_sorted(n: usize) -> Self;
    /// Further views of the same permutation: as a slot provider, rebuilt by the generic
    /// interface, and (`free`) position `o` from the back.
    fn t_more(&self, free: usize) -> (usize, Vec<usize>, Self, usize);
    fn t_empty() -> [Self; 2];
    fn t_set_size(&mut self, n: usize);
    fn frozen(&self) -> bool;
    fn frozen_after_freeze(&self) -> bool;
    fn freeze_is_idempotent(&self) -> bool;
}

macro_rules! perm {
    ($t:ty, $w:expr) => {
        impl Perm for $t {
            const W: usize = $w;
            fn empty() -> Self { <$t>::empty() }
            fn make_sorted(n: usize) -> Self { <$t>::make_sorted(n) }
            fn size(&self) -> usize { <$t>::size(self) }
            fn get(&self, i: usize) -> usize { <$t>::get(self, i) }
            fn back(&self) -> usize { <$t>::back(self) }
            fn back_at_offset(&self, o: usize) -> usize { <$t>::back_at_offset(self, o) }
            fn set_size(&mut self, n: usize) { <$t>::set_size(self, n) }
            fn set(&mut self, i: usize, slot: usize) { <$t>::set(self, i, slot) }
            fn swap_free(&mut self, i: usize, j: usize) { <$t>::swap_free_slots(self, i, j) }
            fn insert(&mut self, i: usize) -> usize { <$t>::insert_from_back(self, i) }
            fn insert_imm(&self, i: usize) -> (Self, usize) { <$t>::insert_from_back_immutable(self, i) }
            fn remove_to_back(&mut self, i: usize) { <$t>::remove_to_back(self, i) }
            fn remove(&mut self, i: usize) { <$t>::remove(self, i) }
            fn exchange(&mut self, i: usize, j: usize) { <$t>::exchange(self, i, j) }
            fn rotate(&mut self, i: usize, j: usize) { <$t>::rotate(self, i, j) }
            fn reload(&self) -> Self { <$t>::from_value(<$t>::value(self)) }
            fn t_insert(&mut self, i: usize) -> usize { TreePermutation::insert_from_back(self, i) }
            fn t_insert_imm(&self, i: usize) -> (Self, usize) { TreePermutation::insert_from_back_immutable(self, i) }
            fn t_swap_free(&mut self, i: usize, j: usize) { TreePermutation::swap_free_slots(self, i, j) }
            fn t_view(&self) -> (usize, Vec<usize>, usize) {
                (TreePermutation::size(self), (0..$w).map(|i| TreePermutation::get(self, i)).collect(), TreePermutation::back(self))
            }
            fn t_sorted(n: usize) -> Self { <$t as TreePermutation>::make_sorted(n) }
            fn t_more(&self, free: usize) -> (usize, Vec<usize>, Self, usize) {
                use masstree::suffix::PermutationProvider;
                self.debug_assert_valid();
                (
                    PermutationProvider::size(self),
                    (0..$w).map(|i| PermutationProvider::get(self, i)).collect(),
                    <$t as TreePermutation>::from_value(TreePermutation::value(self)),
                    TreePermutation::back_at_offset(self, free),
                )
            }
            fn t_empty() -> [Self; 2] { [<$t as TreePermutation>::empty(), <$t as Default>::default()] }
            fn t_set_size(&mut self, n: usize) { TreePermutation::set_size(self, n) }
            fn frozen(&self) -> bool { <$t as TreePermutation>::is_frozen_raw(TreePermutation::value(self)) }
            fn frozen_after_freeze(&self) -> bool {
                <$t as TreePermutation>::is_frozen_raw(<$t as TreePermutation>::freeze_raw(TreePermutation::value(self)))
            }
            fn freeze_is_idempotent(&self) -> bool {
                let f = <$t as TreePermutation>::freeze_raw(TreePermutation::value(self));
                <$t as TreePermutation>::freeze_raw(f) == f && f != TreePermutation::value(self)
            }
        }
    };
}
perm!(Permuter<1>, 1);
perm!(Permuter<2>, 2);
perm!(Permuter<3>, 3);
perm!(Permuter<7>, 7);
perm!(Permuter<12>, 12);
perm!(Permuter<14>, 14);
perm!(Permuter<15>, 15);
perm!(Permuter24, 24);

fn view<P: Perm>(p: &P) -> Vec<usize> {
    (0..P::W).map(|i| p.get(i)).collect()
}

fn agree<P: Perm>(p: &P, size: usize, list: &[usize], what: &str) -> CaseResult {
    let got = view(p);
    ensure!(p.size() == size && got == list, "after {what}: size {} order {got:?}, expected size {size} order {list:?}", p.size());
    ensure!(p.back() == list[P::W - 1], "after {what}: back() = {}", p.back());
    for o in 0..P::W - size {
        ensure!(p.back_at_offset(o) == list[P::W - 1 - o], "after {what}: back_at_offset({o}) = {}", p.back_at_offset(o));
    }
    let (s, v, b) = p.t_view();
    ensure!(s == size && v == list && b == list[P::W - 1], "after {what}: generic view differs");
    if size < P::W {
        let o = (list[0] + list[P::W - 1]) % (P::W - size);
        let (s, v, q, b) = p.t_more(o);
        ensure!(s == size && v == list && q.size() == size && view(&q) == list && b == list[P::W - 1 - o], "after {what}: another view of it differs");
    }
    ensure!(!p.frozen(), "after {what}: an ordinary permutation counts as frozen");
    let r = p.reload();
    ensure!(r.size() == size && view(&r) == list, "after {what}: from_value(value()) differs");
    Ok(())
}

fn start<P: Perm>(n: usize) -> (usize, Vec<usize>) {
    let w = P::W;
    let mut l: Vec<usize> = (0..n).collect();
    l.extend((n..w).rev());
    (n, l)
}

fn ops<P: Perm>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let w = P::W;
    let (mut size, mut list);
    let mut p;
    if src.chance(1, 2) {
        let n = src.urange(0, w);
        p = if src.chance(1, 2) { P::make_sorted(n) } else { P::t_sorted(n) };
        (size, list) = start::<P>(n);
    } else {
        let [a, b] = P::t_empty();
        p = *src.pick(&[P::empty(), a, b]);
        (size, list) = start::<P>(0);
    }
    agree(&p, size, &list, "construction")?;
    let n = src.urange(1, 40);
    let bias = src.below(3);
    for _ in 0..n {
        let k = src.weighted(match bias {
            0 => &[8, 2, 2, 2, 2, 1, 1, 1, 1],
            1 => &[2, 3, 3, 3, 3, 2, 2, 1, 1],
            _ => &[4, 4, 4, 1, 1, 1, 1, 1, 1],
        });
        let what;
        match k {
            0 if size < w => {
                let i = src.urange(0, size);
                let slot = list.pop().unwrap();
                list.insert(i, slot);
                let imm = if src.chance(1, 2) { p.insert_imm(i) } else { p.t_insert_imm(i) };
                let before = view(&p);
                let got = if src.chance(1, 2) { p.insert(i) } else { p.t_insert(i) };
                size += 1;
                what = format!("insert_from_back({i})");
                ensure!(got == slot, "{what} returned slot {got}, expected {slot} (order before {before:?})");
                ensure!(imm.1 == slot && imm.0.size() == size && view(&imm.0) == list, "{what}: immutable form gives {} {:?}", imm.1, view(&imm.0));
            }
            1 if size > 0 => {
                let i = src.idx(size);
                let s = list.remove(i);
                list.push(s);
                size -= 1;
                p.remove_to_back(i);
                what = format!("remove_to_back({i})");
                ensure!(p.back() == s, "{what}: back() is {}", p.back());
            }
            2 if size > 0 => {
                let i = src.idx(size);
                let s = list.remove(i);
                size -= 1;
                list.insert(size, s);
                p.remove(i);
                what = format!("remove({i})");
            }
            3 => {
                let (i, j) = (src.idx(w), src.idx(w));
                list.swap(i, j);
                p.exchange(i, j);
                what = format!("exchange({i}, {j})");
            }
            4 => {
                let i = src.urange(0, w);
                let j = src.urange(i, w);
                list[i..].rotate_left(j - i);
                p.rotate(i, j);
                what = format!("rotate({i}, {j})");
            }
            5 if size < w => {
                let (i, j) = (src.urange(size, w - 1), src.urange(size, w - 1));
                list.swap(i, j);
                if src.chance(1, 2) { p.swap_free(i, j) } else { p.t_swap_free(i, j) };
                what = format!("swap_free_slots({i}, {j})");
            }
            6 => {
                size = src.urange(0, w);
                if src.chance(1, 2) { p.set_size(size) } else { p.t_set_size(size) }
                what = format!("set_size({size})");
            }
            7 => {
                let (i, j) = (src.idx(w), src.idx(w));
                let (a, b) = (list[i], list[j]);
                p.set(i, b);
                p.set(j, a);
                list.swap(i, j);
                what = format!("set({i}, {b}), set({j}, {a})");
            }
            _ => {
                ensure!(p.frozen_after_freeze(), "a frozen permutation does not count as frozen ({list:?})");
                ensure!(p.freeze_is_idempotent(), "freezing twice differs from freezing once ({list:?})");
                what = "freeze".into();
            }
        }
        ctx.say(|| format!("{what}; "));
        agree(&p, size, &list, &what)?;
    }
    ctx.nontrivial = n >= 5;
    Ok(())
}

/// Freezing hides exactly the last position and unfreezing restores it.
fn freeze24(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut p = Permuter24::make_sorted(src.urange(0, 24));
    let n = src.urange(0, 30);
    for _ in 0..n {
        match src.below(3) {
            0 if p.size() < 24 => {
                let i = src.urange(0, p.size());
                let _ = p.insert_from_back(i);
            }
            1 if p.size() > 0 => {
                let i = src.idx(p.size());
                p.remove_to_back(i);
            }
            _ => p.exchange(src.idx(24), src.idx(24)),
        }
    }
    let raw = p.value() & ((1 << 125) - 1);
    let list: Vec<usize> = (0..24).map(|i| p.get(i)).collect();
    ctx.say(|| format!("size {} order {list:?}", p.size()));
    ensure!(!Freeze24Utils::is_frozen(raw), "ordinary permutation counts as frozen: {list:?}");
    let s23 = Freeze24Utils::get_slot23(raw);
    ensure!(s23 == list[23] as u128, "get_slot23 = {s23}, position 23 holds {}", list[23]);
    let f = Freeze24Utils::freeze_raw(raw);
    ensure!(Freeze24Utils::is_frozen(f), "frozen permutation not recognised: {list:?}");
    let q = Permuter24::from_value(f);
    ensure!(q.size() == p.size(), "freezing changed the size");
    for (i, s) in list.iter().enumerate().take(23) {
        ensure!(q.get(i) == *s, "freezing changed position {i}");
    }
    ensure!(Freeze24Utils::unfreeze_raw(f, s23) == raw, "unfreezing does not restore {list:?}");
    // Unfreezing with another slot puts that one there.
    let other = src.below(24) as u128;
    let u = Permuter24::from_value(Freeze24Utils::unfreeze_raw(f, other));
    ensure!(u.get(23) as u128 == other && (0..23).all(|i| u.get(i) == list[i]) && u.size() == p.size(), "unfreezing with slot {other}");
    ctx.nontrivial = n > 3;
    Ok(())
}

/// The atomic cell holds the permutation it was given, and exchanges it only for the expected one.
fn cell(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use masstree::permuter24::AtomicPermuter24;
    use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release, SeqCst};
    let rand = |src: &mut Src| {
        let mut p = Permuter24::make_sorted(src.urange(0, 24));
        for _ in 0..src.urange(0, 4) {
            let (i, j) = (src.idx(24), src.idx(24));
            p.exchange(i, j);
        }
        p
    };
    let mut now = Permuter24::empty();
    let c = match src.below(3) {
        0 => AtomicPermuter24::new(),
        1 => AtomicPermuter24::default(),
        _ => {
            now = rand(src);
            AtomicPermuter24::from_permuter(now)
        }
    };
    let mut kinds = 0u32;
    for _ in 0..src.urange(1, 12) {
        ensure!(c.load(Acquire).value() == now.value() && c.load_raw(Relaxed) == now.value() && c.load(SeqCst).value() == now.value(), "the cell holds another permutation");
        let new = rand(src);
        let (load, store) = (*src.pick(&[Acquire, Relaxed, SeqCst]), *src.pick(&[Release, Relaxed, SeqCst]));
        let expected = if src.chance(1, 2) { now } else { rand(src) };
        let k = src.below(5);
        kinds |= 1 << k;
        let got = match k {
            0 => {
                c.store(new, store);
                now = new;
                continue;
            }
            1 => {
                c.store_raw(new.value(), store);
                now = new;
                continue;
            }
            2 => c.compare_exchange(expected, new, AcqRel, load).map(|p| p.value()).map_err(|p| p.value()),
            3 => {
                let mut r = c.compare_exchange_weak(expected, new, AcqRel, load);
                for _ in 0..100_000 {
                    if r.is_ok() || expected.value() != now.value() {
                        break;
                    }
                    // The weak form may fail for no reason.
                    r = c.compare_exchange_weak(expected, new, AcqRel, load);
                }
                r.map(|p| p.value()).map_err(|p| p.value())
            }
            _ => c.compare_exchange_raw(expected.value(), new.value(), AcqRel, load),
        };
        let want = if expected.value() == now.value() { Ok(now.value()) } else { Err(now.value()) };
        ensure!(got == want, "an exchange of {:x} for {:x} in a cell holding {:x} gave {got:x?}", expected.value(), new.value(), now.value());
        if got.is_ok() {
            now = new;
        }
    }
    ensure!(c.load(Acquire).value() == now.value(), "the cell ends with another permutation");
    ctx.say(|| format!("kinds {kinds:b}"));
    ctx.nontrivial = kinds.count_ones() >= 2;
    Ok(())
}

fn small(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match src.below(6) {
        0 => ops::<Permuter<7>>(src, ctx),
        1 => ops::<Permuter<14>>(src, ctx),
        2 => ops::<Permuter<12>>(src, ctx),
        3 => ops::<Permuter<3>>(src, ctx),
        4 => ops::<Permuter<2>>(src, ctx),
        _ => ops::<Permuter<1>>(src, ctx),
    }
}

fn suites() -> Vec<Suite> {
    vec![Suite {
        id: "C14",
        rule: "an operation sequence of at least 5 steps (freeze arm: more than 3; cell arm: two kinds of operation)",
        arms: vec![
            arm("permuter24", 3_400_000, 220_000_000, ops::<Permuter24>),
            arm("permuter15", 1_800_000, 110_000_000, ops::<Permuter<15>>),
            arm("narrow", 1_100_000, 67_000_000, small),
            arm("freeze24", 1_800_000, 110_000_000, freeze24),
            arm("cell", 600_000, 40_000_000, cell),
        ],
        assumptions: vec!["operations are called within their documented ranges"],
        pin: true,
        workers: 8,
    }]
}

fn main() {
    kit::runner::main(suites)
}
