//! C27: the node allocator of a map. Maps over allocators that keep books, and the library's own
//! allocator against a model.
use crate::conc;
use crate::keys::{self, Key, show};
use crate::seq::bounded;
use crate::tree::Tree;
use crate::val::{self, CVal, Payload, Val};
use crate::walk;
use kit::{CaseResult, Ctx, Fail, Src, ensure, fail};
use masstree::internode::InternodeNode;
use masstree::leaf24::LeafNode24;
use masstree::{LeafValue, LeafValueIndex, MassTreeGeneric, NodeAllocator24, NodeAllocatorGeneric, SeizeAllocator24, ValueSlot};
use seize::{Collector, Guard, LocalGuard};
use std::alloc::Layout;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

type Leaf<S> = LeafNode24<S>;
type Inner<S> = InternodeNode<S, 15>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Leaf,
    Inner,
}

/// Nodes move to a place of the allocator's choosing; nothing is freed before the allocator is.
pub const ARENA: u8 = 0;
/// Everything is passed on to the library's own allocator.
pub const SEIZE: u8 = 1;

/// What one allocator was told.
#[derive(Default)]
pub struct Book {
    nodes: HashMap<usize, Kind>,
    faults: Vec<String>,
    /// Roots given to `teardown_tree`.
    torn: Vec<usize>,
    /// Values dropped before the teardown.
    dropped: u64,
    /// Counts of the allocator underneath, if it has any.
    under: Option<(usize, usize)>,
    subtrees: u64,
    ended: u64,
}

impl Book {
    fn enter(&mut self, p: usize, kind: Kind) {
        if p == 0 {
            self.faults.push(format!("a {kind:?} at null was handed over"));
        } else if let Some(k) = self.nodes.insert(p, kind) {
            self.faults.push(format!("a {kind:?} was handed over that is already there as {k:?}"));
        }
        self.open("a node was handed over");
    }

    fn leave(&mut self, p: usize, kind: Kind) {
        if self.nodes.remove(&p) != Some(kind) {
            self.faults.push(format!("a {kind:?} was retired that the allocator does not have"));
        }
        self.open("a node was retired");
    }

    fn open(&mut self, what: &str) {
        if !self.torn.is_empty() {
            self.faults.push(format!("{what} after the teardown"));
        }
    }
}

pub struct Ledger<S: ValueSlot, const M: u8> {
    book: Arc<Mutex<Book>>,
    under: SeizeAllocator24<S>,
    /// Blocks of the arena, with what lives in them.
    blocks: Mutex<Vec<(usize, Kind)>>,
}

// SAFETY: the addresses are only followed by the one who drops the allocator.
unsafe impl<S: ValueSlot + Send + Sync, const M: u8> Send for Ledger<S, M> {}
unsafe impl<S: ValueSlot + Send + Sync, const M: u8> Sync for Ledger<S, M> {}

impl<S: ValueSlot, const M: u8> Ledger<S, M> {
    fn new(book: Arc<Mutex<Book>>) -> Self {
        Self { book, under: SeizeAllocator24::new(), blocks: Mutex::new(Vec::new()) }
    }

    fn note(&self) {
        if M == SEIZE {
            self.book.lock().unwrap().under = Some((self.under.leaf_count(), self.under.internode_count()));
        }
    }

    /// Moves `*from` into a block of its own and frees the old place.
    fn settle<T>(&self, from: *mut T, kind: Kind) -> *mut T {
        let l = Layout::new::<T>();
        // SAFETY: `from` came out of a Box; the new place has the type's layout.
        let to = unsafe {
            let to = std::alloc::alloc(l).cast::<T>();
            std::ptr::copy_nonoverlapping(from, to, 1);
            // The old place reads as garbage to whoever kept its address.
            std::ptr::write_bytes(from.cast::<u8>(), 0xA5, l.size());
            std::alloc::dealloc(from.cast(), l);
            to
        };
        self.blocks.lock().unwrap().push((to as usize, kind));
        to
    }
}

impl<S: ValueSlot + Send + Sync + 'static, const M: u8> NodeAllocatorGeneric<S, Leaf<S>> for Ledger<S, M> {
    fn alloc_leaf(&self, node: Box<Leaf<S>>) -> *mut Leaf<S> {
        let p = if M == SEIZE {
            NodeAllocatorGeneric::alloc_leaf(&self.under, node)
        } else {
            self.settle(Box::into_raw(node), Kind::Leaf)
        };
        self.book.lock().unwrap().enter(p as usize, Kind::Leaf);
        self.note();
        p
    }

    fn track_leaf(&self, p: *mut Leaf<S>) {
        if M == SEIZE {
            NodeAllocatorGeneric::track_leaf(&self.under, p);
        } else {
            self.blocks.lock().unwrap().push((p as usize, Kind::Leaf));
        }
        self.book.lock().unwrap().enter(p as usize, Kind::Leaf);
        self.note();
    }

    unsafe fn retire_leaf(&self, p: *mut Leaf<S>, guard: &LocalGuard<'_>) {
        self.book.lock().unwrap().leave(p as usize, Kind::Leaf);
        if M == SEIZE {
            // SAFETY: as promised by the caller.
            unsafe { NodeAllocatorGeneric::retire_leaf(&self.under, p, guard) };
            self.note();
        }
    }

    fn alloc_internode_erased(&self, p: *mut u8) -> *mut u8 {
        let p = if M == SEIZE {
            NodeAllocatorGeneric::<S, Leaf<S>>::alloc_internode_erased(&self.under, p)
        } else {
            self.settle(p.cast::<Inner<S>>(), Kind::Inner).cast()
        };
        self.book.lock().unwrap().enter(p as usize, Kind::Inner);
        self.note();
        p
    }

    fn track_internode_erased(&self, p: *mut u8) {
        if M == SEIZE {
            NodeAllocatorGeneric::<S, Leaf<S>>::track_internode_erased(&self.under, p);
        } else {
            self.blocks.lock().unwrap().push((p as usize, Kind::Inner));
        }
        self.book.lock().unwrap().enter(p as usize, Kind::Inner);
        self.note();
    }

    unsafe fn retire_internode_erased(&self, p: *mut u8, guard: &LocalGuard<'_>) {
        self.book.lock().unwrap().leave(p as usize, Kind::Inner);
        if M == SEIZE {
            // SAFETY: as promised by the caller.
            unsafe { NodeAllocatorGeneric::<S, Leaf<S>>::retire_internode_erased(&self.under, p, guard) };
            self.note();
        }
    }

    fn teardown_tree(&self, root: *mut u8) {
        {
            let mut b = self.book.lock().unwrap();
            b.torn.push(root as usize);
            b.dropped = val::dropped();
        }
        if M == SEIZE {
            NodeAllocatorGeneric::<S, Leaf<S>>::teardown_tree(&self.under, root);
        }
        self.note();
    }

    unsafe fn retire_subtree_root(&self, p: *mut u8, guard: &LocalGuard<'_>) {
        self.book.lock().unwrap().subtrees += 1;
        // SAFETY: as promised by the caller.
        unsafe { NodeAllocatorGeneric::<S, Leaf<S>>::retire_subtree_root(&self.under, p, guard) };
    }
}

impl<S: ValueSlot, const M: u8> Drop for Ledger<S, M> {
    fn drop(&mut self) {
        self.book.lock().unwrap().ended += 1;
        for (p, kind) in self.blocks.lock().unwrap().drain(..) {
            // SAFETY: every block was allocated with its type's layout, by `settle` or as a Box.
            unsafe {
                match kind {
                    Kind::Leaf => drop(Box::from_raw(p as *mut Leaf<S>)),
                    Kind::Inner => drop(Box::from_raw(p as *mut Inner<S>)),
                }
            }
        }
    }
}

/// A map over such an allocator.
pub struct Led<S: ValueSlot + Send + Sync + 'static, const M: u8>
where
    Ledger<S, M>: NodeAllocatorGeneric<S, Leaf<S>>,
    Leaf<S>: masstree::TreeLeafNode<S>,
{
    t: MassTreeGeneric<S, Leaf<S>, Ledger<S, M>>,
    book: Arc<Mutex<Book>>,
}

/// A map whose allocator can be asked what it was told.
pub trait Booked: Tree {
    fn book(&self) -> Arc<Mutex<Book>>;
}

macro_rules! led {
    ($slot:ty, $p:ty, $out:ty, $m:expr, $name:literal, $arc:literal) => {
        impl Tree for Led<$slot, { $m }> {
            type P = $p;
            type Out = $out;
            type Slot = $slot;
            const NAME: &'static str = $name;
            const ARC: bool = $arc;
            fn new() -> Self {
                let book = Arc::new(Mutex::new(Book::default()));
                Self { t: MassTreeGeneric::with_allocator(Ledger::new(book.clone())), book }
            }
            fn default_() -> Self {
                Self::new()
            }
            fn guard(&self) -> LocalGuard<'_> {
                self.t.guard()
            }
            fn insert(&self, k: &[u8], id: u64) -> Option<$out> {
                self.t.insert(k, <$p>::mk(id)).unwrap_or_else(|e| panic!("insert returned an error: {e:?}"))
            }
            fn insert_g(&self, k: &[u8], id: u64, g: &LocalGuard<'_>) -> Option<$out> {
                self.t.insert_with_guard(k, <$p>::mk(id), g).unwrap_or_else(|e| panic!("insert returned an error: {e:?}"))
            }
            fn get(&self, k: &[u8]) -> Option<$out> {
                self.t.get(k)
            }
            fn get_g(&self, k: &[u8], g: &LocalGuard<'_>) -> Option<$out> {
                self.t.get_with_guard(k, g)
            }
            fn get_ref<'g>(&self, k: &[u8], g: &'g LocalGuard<'_>) -> Option<&'g $p> {
                self.t.get_ref(k, g)
            }
            fn out_id(o: &$out) -> u64 {
                o.id()
            }
            fn len(&self) -> usize {
                self.t.len()
            }
            fn is_empty(&self) -> bool {
                self.t.is_empty()
            }
            fn root(&self) -> *const u8 {
                self.t.verif_root()
            }
            fn settled(&self, s: &walk::Shape) -> CaseResult {
                settled(self, s)
            }
            fn ended(self, stored: u64) -> CaseResult {
                ended(self, stored)
            }
        }

        impl Booked for Led<$slot, { $m }> {
            fn book(&self) -> Arc<Mutex<Book>> {
                self.book.clone()
            }
        }
    };
}

led!(LeafValue<Val>, Val, Arc<Val>, ARENA, "map over an arena, Arc values", true);
led!(LeafValue<Val>, Val, Arc<Val>, SEIZE, "map over a counting allocator, Arc values", true);
led!(LeafValueIndex<CVal>, CVal, CVal, ARENA, "map over an arena, inline values", false);
led!(LeafValueIndex<CVal>, CVal, CVal, SEIZE, "map over a counting allocator, inline values", false);

pub type ArenaArc = Led<LeafValue<Val>, ARENA>;
pub type ArenaInline = Led<LeafValueIndex<CVal>, ARENA>;
pub type SeizeArc = Led<LeafValue<Val>, SEIZE>;
pub type SeizeInline = Led<LeafValueIndex<CVal>, SEIZE>;

/// At rest: the allocator has the map's nodes, each once, and nothing else.
fn settled<T: Booked>(t: &T, s: &walk::Shape) -> CaseResult {
    let book = t.book();
    let b = book.lock().unwrap();
    ensure!(b.faults.is_empty(), "{}", b.faults.join("; "));
    ensure!(b.torn.is_empty() && b.ended == 0, "the map lives, its allocator was told of {} teardowns", b.torn.len());
    for (p, leaf) in &s.nodes {
        let kind = if *leaf { Kind::Leaf } else { Kind::Inner };
        match b.nodes.get(&(*p as usize)) {
            Some(k) if *k == kind => {}
            Some(k) => fail!("a {kind:?} of the map was handed over as {k:?}"),
            None => fail!("a {kind:?} of the map was never handed to its allocator"),
        }
    }
    ensure!(
        b.subtrees > 0 || b.nodes.len() == s.nodes.len(),
        "the allocator was given {} nodes, the map consists of {} ({} leaves, {} inner nodes)", b.nodes.len(), s.nodes.len(), s.leaves, s.inners
    );
    if let Some(u) = b.under {
        let (l, i) = (b.nodes.values().filter(|k| **k == Kind::Leaf).count(), b.nodes.values().filter(|k| **k == Kind::Inner).count());
        ensure!(u == (l, i), "given {l} leaves and {i} inner nodes, SeizeAllocator24 counts {u:?}");
    }
    Ok(())
}

/// Drops the map: one teardown with its root, after everything replaced was released, and nothing later.
/// `stored` is the number of inserts made, none of whose results is held.
fn ended<T: Booked>(t: T, stored: u64) -> CaseResult {
    let (root, len, book) = (t.root() as usize, t.len() as u64, t.book());
    let held = val::dropped();
    drop(t);
    let b = book.lock().unwrap();
    ensure!(b.faults.is_empty(), "{}", b.faults.join("; "));
    ensure!(b.torn.len() == 1, "dropping the map tore it down {} times", b.torn.len());
    ensure!(b.torn[0] == root, "the teardown was given another root than the map's");
    ensure!(b.ended == 1, "the allocator was dropped {} times", b.ended);
    if T::ARC {
        ensure!(
            b.dropped == stored - len,
            "{stored} values stored under {len} keys: {} were released before the teardown ({held} before the drop), expected {}", b.dropped, stored - len
        );
        ensure!(val::dropped() == stored && val::double_drops() == 0, "{stored} values stored, {} released at the end", val::dropped());
    }
    if let Some(u) = b.under {
        ensure!(u == (0, 0), "after the teardown SeizeAllocator24 still counts {u:?}");
    }
    Ok(())
}

/// One thread, sometimes two maps side by side.
pub fn solo<T: Booked>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let size = *src.pick(&[60usize, 60, 400, 2000]);
    let mut ks = keys::pool(src, size);
    if ks.is_empty() {
        return Ok(());
    }
    let ord = keys::order(src, &mut ks);
    let two = src.chance(1, 4);
    let again = src.logu(60);
    let every = 1 + src.idx(ks.len());
    let salt = src.below(1 << 20);
    ctx.say(|| format!("{}{} {} keys ({ord}), checked every {every}, {again} updates, e.g. {}\n", T::NAME, if two { " twice" } else { "" }, ks.len(),
        ks.iter().take(6).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    crate::seq::warm::<T>();
    let start = kit::alloc::live();
    let mut nodes = 0;
    {
        let maps: Vec<T> = (0..1 + usize::from(two)).map(|_| T::new()).collect();
        let mut want: Vec<BTreeMap<&Key, u64>> = vec![BTreeMap::new(); maps.len()];
        let mut id = 0;
        let mut stored = vec![0u64; maps.len()];
        let mut r = kit::Rng::new(salt);
        for m in &maps {
            settled(m, &walk::shape(m)?)?;
        }
        for i in 0..ks.len() + again as usize {
            let w = if two { r.below(2) as usize } else { 0 };
            let k = if i < ks.len() { &ks[i] } else { &ks[r.below(ks.len() as u64) as usize] };
            id += 1;
            let old = bounded(|| maps[w].insert(k, id)).map(|o| T::out_id(&o));
            stored[w] += 1;
            let was = want[w].insert(k, id);
            ensure!(old == was, "insert({}) returned {old:?}, expected {was:?}", show(k));
            if (i + 1) % every == 0 {
                walk::shape(&maps[w]).and_then(|s| settled(&maps[w], &s)).map_err(|e| Fail::new(format!("after {} keys, the last {}: {}", i + 1, show(k), e.msg)))?;
            }
        }
        for (m, want) in maps.iter().zip(&want) {
            settled(m, &walk::shape(m)?)?;
            for k in &ks {
                let got = bounded(|| m.get(k)).map(|o| T::out_id(&o));
                ensure!(got == want.get(k).copied(), "get({}) = {got:?}, expected {:?}", show(k), want.get(k));
            }
            let b = m.book();
            nodes += b.lock().unwrap().nodes.len() as u64;
        }
        ctx.nontrivial = nodes > maps.len() as u64;
        if two && T::ARC {
            // Two maps share one drop count: only the leak check below applies.
            for m in maps {
                drop(m);
            }
            ensure!(val::dropped() == stored.iter().sum::<u64>(), "{} values stored in two maps, {} released", stored.iter().sum::<u64>(), val::dropped());
        } else {
            for (m, n) in maps.into_iter().zip(stored) {
                ended(m, n)?;
            }
        }
    }
    let end = kit::alloc::live();
    ensure!(end == start, "{} bytes in {} blocks were left behind", end.0 - start.0, end.1 - start.1);
    ctx.count("nodes", nodes);
    Ok(())
}

/// Several threads under chosen schedules.
pub fn shared<T: Booked, const Z: u8>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    conc::case::<T, { conc::NODES }, Z>(src, ctx)
}

/// What the model knows of one node of the allocator under test.
struct Made {
    p: usize,
    kind: Kind,
    ids: Vec<u64>,
}

/// The library's own allocator against a model: counts, and every node freed exactly once, not too early.
pub fn own(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    type S = LeafValue<Val>;
    crate::seq::warm::<ArenaArc>();
    let n = 1 + src.logu(60);
    // Drawn beforehand, so that nothing else allocates in between.
    let script: Vec<(usize, bool, bool, usize, u64)> = (0..n)
        .map(|_| (src.weighted(&[5, 3, 2, 2, 5, 2, 1]), src.chance(1, 2), src.chance(1, 2), src.idx(6), src.below(1 << 10)))
        .collect();
    let (by_default, allocator_first) = (src.chance(1, 2), src.chance(1, 2));
    let start = kit::alloc::live();
    let mut id = 0u64;
    let (mut retires, mut tears) = (0, 0);
    let summary;
    {
        let col = Collector::new();
        let a: SeizeAllocator24<S> = if !by_default { SeizeAllocator24::new() } else { SeizeAllocator24::default() };
        let mut have: Vec<Made> = Vec::new();
        // Values of retired nodes: at the latest gone when the collector is.
        let mut gone: Vec<u64> = Vec::new();
        // Retired while the pinning guard exists.
        let mut pinned: Vec<u64> = Vec::new();
        let mut pin: Option<LocalGuard<'_>> = None;
        for (what, generic, flip, small, big) in script.iter().copied() {
            match what {
                0 | 2 => {
                    let l: Box<Leaf<S>> = if flip { Leaf::new() } else { Leaf::new_root() };
                    let k = small;
                    let mut ids = Vec::new();
                    for i in 0..k {
                        id += 1;
                        ids.push(id);
                        let slot = (i * 5 + id as usize) % 24;
                        if l.leaf_value_ptr(slot).is_null() {
                            l.set_ikey(slot, id);
                            l.set_keylenx(slot, 8);
                            l.set_leaf_value_ptr(slot, Arc::into_raw(Arc::new(Val::mk(id))).cast_mut().cast());
                        } else {
                            ids.pop();
                        }
                    }
                    if big % 3 == 0 {
                        let g = col.enter();
                        // SAFETY: nobody else has the leaf.
                        unsafe { l.assign_ksuf(23, b"some suffix", &g) };
                    }
                    let p = Box::into_raw(l);
                    let q = match (what, generic) {
                        // SAFETY: from a Box just now.
                        (0, false) => a.alloc_leaf24(unsafe { Box::from_raw(p) }),
                        (0, true) => a.alloc_leaf(unsafe { Box::from_raw(p) }),
                        (_, false) => {
                            a.track_leaf24(p);
                            p
                        }
                        _ => {
                            a.track_leaf(p);
                            p
                        }
                    };
                    // SAFETY: the allocator keeps it until it is retired or torn down.
                    unsafe {
                        for i in &ids {
                            ensure!((0..24).any(|s| (*q).ikey(s) == *i && !(*q).leaf_value_ptr(s).is_null()), "the leaf's value {i} is not in it after the allocation");
                        }
                    }
                    have.push(Made { p: q as usize, kind: Kind::Leaf, ids });
                }
                1 | 3 => {
                    let h = small as u32;
                    let p = Box::into_raw(Inner::<S>::new(h));
                    let q: *mut u8 = match (what, generic) {
                        // SAFETY: from a Box just now.
                        (1, false) => a.alloc_internode24(unsafe { Box::from_raw(p) }).cast(),
                        (1, true) => NodeAllocatorGeneric::<S, Leaf<S>>::alloc_internode_erased(&a, p.cast()),
                        (_, false) => {
                            a.track_internode24(p);
                            p.cast()
                        }
                        _ => {
                            NodeAllocatorGeneric::<S, Leaf<S>>::track_internode_erased(&a, p.cast());
                            p.cast()
                        }
                    };
                    // SAFETY: as above.
                    let got = unsafe { (*q.cast::<Inner<S>>()).height() };
                    ensure!(got == h, "an inner node of height {h} has height {got} after the allocation");
                    have.push(Made { p: q as usize, kind: Kind::Inner, ids: vec![] });
                }
                4 if !have.is_empty() => {
                    retires += 1;
                    let m = have.swap_remove(big as usize % have.len());
                    let g = col.enter();
                    // SAFETY: the node came from this allocator and nobody else knows it.
                    unsafe {
                        match (m.kind, generic) {
                            (Kind::Leaf, false) => a.retire_leaf24(m.p as *mut _, &g),
                            (Kind::Leaf, true) => a.retire_leaf(m.p as *mut _, &g),
                            (Kind::Inner, false) => a.retire_internode24(m.p as *mut _, &g),
                            (Kind::Inner, true) => NodeAllocatorGeneric::<S, Leaf<S>>::retire_internode_erased(&a, m.p as *mut _, &g),
                        }
                    }
                    g.flush();
                    drop(g);
                    if pin.is_some() {
                        pinned.extend(&m.ids);
                    }
                    gone.extend(&m.ids);
                }
                5 => {
                    if pin.take().is_some() {
                        pinned.clear();
                    } else {
                        pin = Some(col.enter());
                    }
                }
                6 => {
                    tears += 1;
                    let root = have.first().map_or(std::ptr::null_mut(), |m| m.p as *mut u8);
                    if generic {
                        NodeAllocatorGeneric::<S, Leaf<S>>::teardown_tree(&a, root);
                    } else {
                        a.teardown_tree24(root);
                    }
                    for m in have.drain(..) {
                        for i in m.ids {
                            ensure!(val::drops(i) == 1, "value {i} of a node torn down was dropped {} times", val::drops(i));
                        }
                    }
                }
                _ => {}
            }
            let want = (have.iter().filter(|m| m.kind == Kind::Leaf).count(), have.iter().filter(|m| m.kind == Kind::Inner).count());
            let got = (a.leaf_count(), a.internode_count());
            ensure!(got == want, "holding {want:?} leaves and inner nodes, the allocator counts {got:?}");
            for i in have.iter().flat_map(|m| &m.ids).chain(&pinned) {
                ensure!(val::drops(*i) == 0, "value {i} was dropped though its node is {}", if pinned.contains(i) { "retired under a guard" } else { "not retired" });
            }
        }
        summary = format!("{n} steps, {id} values, {retires} retired, {tears} teardowns, {} nodes at the end, {:?}", have.len(), a);
        ctx.nontrivial = retires > 0 && id > 0;
        drop(pin);
        let left: Vec<u64> = have.iter().flat_map(|m| m.ids.clone()).collect();
        if allocator_first {
            drop(a);
            for i in &left {
                ensure!(val::drops(*i) == 1, "value {i} was dropped {} times when its allocator ended", val::drops(*i));
            }
            drop(col);
        } else {
            drop(col);
            for i in &gone {
                ensure!(val::drops(*i) == 1, "value {i} of a retired node was dropped {} times when the collector ended", val::drops(*i));
            }
            for i in &left {
                ensure!(val::drops(*i) == 0, "value {i} of a live node was dropped");
            }
            drop(a);
        }
        for i in left.iter().chain(&gone) {
            ensure!(val::drops(*i) == 1, "value {i} was dropped {} times in the end", val::drops(*i));
        }
        ensure!(val::double_drops() == 0, "a value was dropped twice");
    }
    let end = kit::alloc::live();
    let end = (end.0 - summary.capacity() as i64, end.1 - 1);
    ctx.say(|| summary.clone());
    ensure!(end == start, "{} bytes in {} blocks were left behind", end.0 - start.0, end.1 - start.1);
    ctx.count("retired", retires);
    Ok(())
}
