//! Walks every node of a map at rest and rebuilds its contents from the nodes alone.
use crate::keys::{Key, show};
use crate::tree::Tree;
use kit::{Fail, ensure, fail};
use masstree::internode::InternodeNode;
use masstree::leaf24::LeafNode24;
use masstree::nodeversion::NodeVersion;
use std::collections::{BTreeMap, HashSet};

type Inner<S> = InternodeNode<S, 15>;

#[derive(Default)]
pub struct Shape {
    /// Values' addresses by key.
    pub entries: BTreeMap<Key, *const u8>,
    pub leaves: u64,
    pub inners: u64,
    pub layers: u64,
    pub height: u64,
    /// Every node, and whether it is a leaf.
    pub nodes: Vec<(*const u8, bool)>,
    /// Leaves of each layer in key order.
    pub spans: Vec<Span>,
}

/// One leaf: the layer's prefix, the slices that belong there, and how many entries it has.
pub struct Span {
    pub prefix: Key,
    pub lo: u64,
    pub hi: Option<u64>,
    pub size: usize,
}

struct Walk<'a, T: Tree> {
    out: &'a mut Shape,
    seen: HashSet<*const u8>,
    /// Leaves of the current layer in key order.
    chain: Vec<*const LeafNode24<T::Slot>>,
}

/// The whole map; the caller guarantees that nobody changes it.
pub fn shape<T: Tree>(t: &T) -> Result<Shape, Fail> {
    let mut out = Shape::default();
    let mut seen = HashSet::new();
    layer::<T>(t.root(), &mut Vec::new(), &mut out, &mut seen, true)?;
    Ok(out)
}

fn layer<T: Tree>(root: *const u8, prefix: &mut Key, out: &mut Shape, seen: &mut HashSet<*const u8>, main: bool) -> Result<(), Fail> {
    let mut top = root;
    let mut hops = 0;
    loop {
        ensure!(!top.is_null(), "layer {} has no root", show(prefix));
        let p = parent::<T>(top);
        if p.is_null() {
            break;
        }
        ensure!(!main, "the map's root has a parent");
        top = p;
        hops += 1;
        ensure!(hops < 64, "parents of layer {} form a cycle", show(prefix));
    }
    out.layers += 1;
    let mut w = Walk::<T> { out, seen: std::mem::take(seen), chain: Vec::new() };
    w.node(top, None, None, std::ptr::null(), prefix, 0)?;
    let chain = std::mem::take(&mut w.chain);
    *seen = std::mem::take(&mut w.seen);
    let out = w.out;
    let mut prev: *const LeafNode24<T::Slot> = std::ptr::null();
    let mut total = 0;
    for (i, l) in chain.iter().enumerate() {
        // SAFETY: nodes live as long as the map, which is at rest.
        let n = unsafe { &**l };
        let next = chain.get(i + 1).copied().unwrap_or(std::ptr::null());
        ensure!(!n.next_is_marked() && std::ptr::eq(n.safe_next(), next), "leaf {i} of {} in layer {} links to another next leaf", chain.len(), show(prefix));
        ensure!(std::ptr::eq(n.prev(), prev), "leaf {i} of {} in layer {} links to another previous leaf", chain.len(), show(prefix));
        prev = *l;
        total += n.permutation().size();
    }
    ensure!(main || total > 0, "layer {} is empty", show(prefix));
    // Entries of all leaves in order, with the layers below.
    let mut last: Option<u64> = None;
    // Length codes seen with the slice `last`; their order within a slice is free (nothing scans a leaf in key order).
    let mut ranks: Vec<u8> = Vec::new();
    for (i, l) in chain.iter().enumerate() {
        // SAFETY: as above.
        let n = unsafe { &**l };
        let p = n.permutation();
        let mut used = [false; 24];
        for j in 0..24 {
            let s = p.get(j);
            ensure!(s < 24 && !used[s], "leaf {i} in layer {}: slot {s} twice in the permutation", show(prefix));
            used[s] = true;
        }
        for j in 0..p.size() {
            let s = p.get(j);
            let (ik, code) = (n.ikey(s), n.keylenx(s));
            let rank = code.min(9);
            ensure!(last.is_none_or(|x| x <= ik), "layer {}: entry {j} of leaf {i} is ({ik:x}, {code}) after {last:x?}", show(prefix));
            if last != Some(ik) {
                ranks.clear();
                last = Some(ik);
            }
            ensure!(!ranks.contains(&rank), "layer {}: two entries for slice {ik:x} with length code {code}", show(prefix));
            ranks.push(rank);
            let b = ik.to_be_bytes();
            let v: *const u8 = n.leaf_value_ptr(s);
            ensure!(!v.is_null(), "layer {}: entry ({ik:x}, {code}) has no value", show(prefix));
            let mut k = prefix.clone();
            match code {
                0..=8 => {
                    let l = usize::from(code);
                    ensure!(b[l..].iter().all(|x| *x == 0), "layer {}: slice {ik:x} of a {l}-byte key is not padded with zeros", show(prefix));
                    k.extend_from_slice(&b[..l]);
                }
                64 => {
                    let Some(suf) = n.ksuf(s) else { fail!("layer {}: entry ({ik:x}, suffix) has no suffix", show(prefix)) };
                    ensure!(!suf.is_empty(), "layer {}: entry {ik:x} has an empty suffix", show(prefix));
                    k.extend_from_slice(&b);
                    k.extend_from_slice(suf);
                }
                128.. => {
                    k.extend_from_slice(&b);
                    layer::<T>(v, &mut k, out, seen, false)?;
                    continue;
                }
                _ => fail!("layer {}: slot {s} has length code {code}", show(prefix)),
            }
            if out.entries.insert(k.clone(), v).is_some() {
                fail!("{} is stored twice", show(&k));
            }
        }
    }
    Ok(())
}

fn parent<T: Tree>(p: *const u8) -> *const u8 {
    // SAFETY: every node starts with its version.
    unsafe {
        if (*p.cast::<NodeVersion>()).is_leaf() {
            (*p.cast::<LeafNode24<T::Slot>>()).parent()
        } else {
            (*p.cast::<Inner<T::Slot>>()).parent()
        }
    }
}

impl<T: Tree> Walk<'_, T> {
    /// Keys of the subtree lie in `lo..hi`; returns its height.
    fn node(&mut self, p: *const u8, lo: Option<u64>, hi: Option<u64>, par: *const u8, prefix: &Key, depth: u64) -> Result<u64, Fail> {
        ensure!(!p.is_null(), "an inner node in layer {} misses a child", show(prefix));
        ensure!(self.seen.insert(p), "a node in layer {} is reachable twice", show(prefix));
        ensure!(parent::<T>(p) == par, "a node at depth {depth} of layer {} has another parent", show(prefix));
        // SAFETY: as above.
        let v = unsafe { &*p.cast::<NodeVersion>() };
        ensure!(!v.is_locked() && !v.is_inserting() && !v.is_splitting() && !v.is_deleted(), "a node at depth {depth} of layer {} is still locked or marked", show(prefix));
        ensure!(v.is_root() == par.is_null(), "the root mark of a node at depth {depth} of layer {} is {}", show(prefix), v.is_root());
        let inside = |k: u64| lo.is_none_or(|l| l <= k) && hi.is_none_or(|h| k < h);
        if v.is_leaf() {
            // SAFETY: as above.
            let n = unsafe { &*p.cast::<LeafNode24<T::Slot>>() };
            let perm = n.permutation();
            for j in 0..perm.size() {
                let ik = n.ikey(perm.get(j));
                ensure!(inside(ik), "layer {}: slice {ik:x} is in the leaf for {lo:x?}..{hi:x?}", show(prefix));
            }
            ensure!(par.is_null() || perm.size() > 0, "an empty leaf in layer {}", show(prefix));
            if let Some(l) = lo {
                ensure!(n.ikey_bound() == l, "layer {}: the leaf for {l:x} has bound {:x}", show(prefix), n.ikey_bound());
            }
            self.out.leaves += 1;
            self.out.spans.push(Span { prefix: prefix.clone(), lo: lo.unwrap_or(0), hi, size: perm.size() });
            self.out.nodes.push((p, true));
            self.chain.push(n);
            return Ok(0);
        }
        self.out.inners += 1;
        self.out.nodes.push((p, false));
        // SAFETY: as above.
        let n = unsafe { &*p.cast::<Inner<T::Slot>>() };
        let c = n.nkeys();
        ensure!((1..=15).contains(&c), "an inner node of layer {} with {c} keys", show(prefix));
        let mut low = lo;
        let mut height = None;
        for i in 0..=c {
            let high = if i < c { Some(n.ikey(i)) } else { hi };
            if let Some(k) = high {
                ensure!(i == c || inside(k), "layer {}: separator {k:x} outside {lo:x?}..{hi:x?}", show(prefix));
                ensure!(low.is_none_or(|l| l < k), "layer {}: separators {low:x?}, {k:x} out of order", show(prefix));
            }
            let h = self.node(n.child(i), low, high, p, prefix, depth + 1)?;
            ensure!(height.is_none_or(|x| x == h), "layer {}: children of different heights", show(prefix));
            height = Some(h);
            low = high;
        }
        let h = height.unwrap_or(0);
        ensure!(u64::from(n.height()) == h, "layer {}: an inner node above {h} inner levels says {}", show(prefix), n.height());
        self.out.height = self.out.height.max(h + 1);
        Ok(h + 1)
    }
}

/// The rebuilt contents against the expected keys; `want` maps to the value if it is known.
pub fn check<T: Tree>(t: &T, want: &BTreeMap<Key, Option<u64>>) -> Result<Shape, Fail> {
    let s = shape(t)?;
    for (k, id) in want {
        let Some(v) = s.entries.get(k) else { fail!("{} is in no leaf", show(k)) };
        if let Some(id) = id {
            // SAFETY: the slot's pointer refers to a payload of this map.
            let got = unsafe { &*v.cast::<T::P>() };
            let got = crate::val::Payload::id(got);
            ensure!(got == *id, "the leaf holds {got} for {}, expected {id}", show(k));
        }
    }
    for k in s.entries.keys() {
        ensure!(want.contains_key(k), "{} is in a leaf but was never inserted", show(k));
    }
    ensure!(t.len() == want.len(), "len() = {} with {} entries in the leaves", t.len(), want.len());
    Ok(s)
}
