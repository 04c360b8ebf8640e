//! Inner nodes against a sorted list of keys between children.
use kit::{CaseResult, Ctx, Src, Suite, ensure};
use masstree::TreeInternode;
use masstree::internode::InternodeNode;
use masstree::ksearch;
use masstree::value::LeafValue;
use parts::{arm, words};

type Node<const W: usize> = InternodeNode<LeafValue<u64>, W>;

/// Expected contents: `keys.len() + 1` children.
#[derive(Clone, Debug)]
struct Model {
    keys: Vec<u64>,
    kids: Vec<usize>,
}

impl Model {
    fn insert(&mut self, p: usize, k: u64, c: usize) {
        self.keys.insert(p, k);
        self.kids.insert(p + 1, c);
    }
}

fn show(m: &Model) -> String {
    let mut s = format!("c{}", m.kids.first().copied().unwrap_or(0));
    for (k, c) in m.keys.iter().zip(&m.kids[1..]) {
        s.push_str(&format!(" {k:x} c{c}"));
    }
    s
}

fn agree<const W: usize>(n: &Node<W>, m: &Model, kids: &[*mut u8], what: &str) -> CaseResult {
    let (a, b, c) = (n.nkeys(), n.size(), TreeInternode::nkeys(n));
    ensure!(a == m.keys.len() && b == a && c == a, "{what}: {a}/{b}/{c} keys, expected [{}]", show(m));
    ensure!(n.is_empty() == m.keys.is_empty() && n.is_full() == (a == W) && TreeInternode::is_full(n) == (a == W),
        "{what}: is_empty {} is_full {} with {a} of {W} keys", n.is_empty(), n.is_full());
    for (i, k) in m.keys.iter().enumerate() {
        ensure!(n.ikey(i) == *k && TreeInternode::ikey(n, i) == *k, "{what}: key {i} is {:x}, expected [{}]", n.ikey(i), show(m));
    }
    for (i, c) in m.kids.iter().enumerate() {
        ensure!(n.child(i) == kids[*c] && TreeInternode::child(n, i) == kids[*c], "{what}: child {i} is wrong, expected [{}]", show(m));
    }
    n.debug_assert_invariants();
    Ok(())
}

fn case<const W: usize>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let height = src.weighted(&[2, 3, 1]) as u32;
    let mut boxes: Vec<Box<Node<W>>> = Vec::new();
    let mut kids: Vec<*mut u8> = Vec::new();
    let mut backing: Vec<u8> = vec![0; 64];
    let total = src.urange(1, 3 * W + 6);
    for i in 0..=total {
        if height > 0 {
            let mut b = Node::<W>::new(height - 1);
            kids.push((&raw mut *b).cast());
            boxes.push(b);
        } else {
            kids.push(&raw mut backing[i]);
        }
    }
    let root = src.chance(1, 2);
    let first = if root { Node::<W>::new_root(height) } else { Node::<W>::new(height) };
    ensure!(first.is_root() == root && first.height() == height && first.children_are_leaves() == (height == 0), "new node's height or root mark");
    ensure!(!first.version().is_leaf() && first.parent().is_null() && first.is_empty(), "new node not an empty inner node");
    for i in 0..=W {
        ensure!(first.child(i).is_null(), "new node has child {i}");
    }
    first.set_child(0, kids[0]);
    let set_parent = |c: usize, p: *mut u8| {
        if height > 0 {
            // SAFETY: children of taller nodes are the boxes above.
            unsafe { (*kids[c].cast::<Node<W>>()).set_parent(p) };
        }
    };
    let mut nodes: Vec<(Box<Node<W>>, Model)> = vec![(first, Model { keys: vec![], kids: vec![0] })];
    // The separators between the nodes, as their parent would hold them.
    let mut seps: Vec<u64> = Vec::new();
    {
        let p: *mut u8 = (&raw const *nodes[0].0).cast_mut().cast();
        set_parent(0, p);
    }
    let pool = words(src, 60);
    let order = src.below(3);
    let mut sorted = pool.clone();
    sorted.sort_unstable();
    let mut splits = 0;
    let mut next = 1;
    for step in 0..total {
        let key = match order {
            0 => *src.pick(&pool),
            1 => sorted[step % sorted.len()],
            _ => sorted[sorted.len() - 1 - step % sorted.len()],
        };
        // Route as a parent would.
        let at = seps.partition_point(|s| *s <= key);
        let c = next;
        {
            let (n, m) = &nodes[at];
            if m.keys.contains(&key) || seps.contains(&key) {
                continue;
            }
            let p = m.keys.partition_point(|k| *k < key);
            let got = n.find_insert_position(key);
            let gen_got = TreeInternode::find_insert_position(&**n, key);
            ensure!(got == p && gen_got == p, "find_insert_position({key:x}) = {got}/{gen_got} in [{}]", show(m));
            let ub = ksearch::upper_bound_internode_generic(key, &**n);
            ensure!(ub == p, "routing {key:x} to child {ub} of [{}]", show(m));
        }
        next += 1;
        if nodes[at].1.keys.len() < W {
            let (n, m) = &mut nodes[at];
            let p = m.keys.partition_point(|k| *k < key);
            let np: *mut u8 = (&raw mut **n).cast();
            if p == m.keys.len() && src.chance(1, 3) {
                if src.chance(1, 2) {
                    n.assign(p, key, kids[c]);
                } else {
                    TreeInternode::assign(&**n, p, key, kids[c]);
                }
                if src.chance(1, 2) { n.inc_nkeys() } else { TreeInternode::inc_nkeys(&**n) }
            } else if src.chance(1, 2) {
                TreeInternode::insert_key_and_child(&**n, p, key, kids[c]);
            } else {
                n.insert_key_and_child(p, key, kids[c]);
            }
            m.insert(p, key, c);
            set_parent(c, np);
            ctx.say(|| format!("insert {key:x} at {p} of node {at}; "));
            agree(n, m, &kids, "after insert")?;
        } else {
            splits += 1;
            let (n, m) = &mut nodes[at];
            let p = m.keys.partition_point(|k| *k < key);
            let np: *mut u8 = (&raw mut **n).cast();
            // The new child hangs off the node that is being split until the split moves it.
            set_parent(c, np);
            let style = src.below(3);
            let mut right = if style == 0 {
                Node::<W>::new(height)
            } else {
                let g = n.version().lock();
                let r = Node::<W>::new_for_split(n.version(), height);
                ensure!(r.version().is_locked() && r.version().is_splitting() && !r.version().is_root() && !r.version().is_leaf(),
                    "a split sibling is not a locked, splitting, non-root inner node");
                drop(g);
                r
            };
            ensure!(right.is_empty() && right.height() == height, "a new sibling has keys or another height");
            let rp: *mut Node<W> = &raw mut *right;
            let (popup, left) = if src.chance(1, 2) {
                n.split_into(&mut right, rp, p, key, kids[c])
            } else {
                TreeInternode::split_into(&**n, &mut right, rp, p, key, kids[c])
            };
            let mut all = m.clone();
            all.insert(p, key, c);
            // Any split is correct that keeps the order and puts one key up.
            let nl = n.nkeys();
            ensure!(nl + 1 + right.nkeys() == all.keys.len(),
                "split of [{}] left {nl} and {} keys", show(&all), right.nkeys());
            ensure!(W < 2 || (nl >= 1 && right.nkeys() >= 1) || W == 2,
                "split of {W} keys left an empty side ({nl}/{})", right.nkeys());
            ensure!(popup == all.keys[nl], "split of [{}] put {popup:x} up, expected {:x}", show(&all), all.keys[nl]);
            ensure!(left == (p < nl), "split of [{}] says the insert went {}, position {p} of {nl}", show(&all), if left { "left" } else { "right" });
            let lm = Model { keys: all.keys[..nl].to_vec(), kids: all.kids[..=nl].to_vec() };
            let rm = Model { keys: all.keys[nl + 1..].to_vec(), kids: all.kids[nl + 1..].to_vec() };
            ctx.say(|| format!("split node {at} [{}] inserting at {p} -> up {popup:x}; ", show(&all)));
            agree(n, &lm, &kids, "left after split")?;
            agree(&right, &rm, &kids, "right after split")?;
            ensure!(right.height() == height, "split changed the sibling's height");
            for (half, ptr, name) in [(&lm, np, "left"), (&rm, rp.cast::<u8>(), "right")] {
                if height > 0 {
                    for k in &half.kids {
                        // SAFETY: as above.
                        let par = unsafe { (*kids[*k].cast::<Node<W>>()).parent() };
                        ensure!(par == ptr, "child c{k} in the {name} half of [{}] has another parent", show(&all));
                    }
                }
            }
            if style != 0 {
                right.version().unlock_for_split();
                ensure!(!right.version().is_locked() && !right.version().is_splitting(), "unlock_for_split left the sibling locked");
            }
            *m = lm;
            nodes.insert(at + 1, (right, rm));
            seps.insert(at, popup);
        }
    }
    let mut flat: Vec<u64> = Vec::new();
    for (i, (n, m)) in nodes.iter().enumerate() {
        agree(n, m, &kids, "at the end")?;
        flat.extend(&m.keys);
        flat.extend(seps.get(i));
    }
    ensure!(flat.windows(2).all(|w| w[0] < w[1]), "keys out of order at the end: {flat:x?}");
    ensure!(flat.len() + 1 == next, "{} keys at the end, {} inserted", flat.len(), next - 1);
    ctx.nontrivial = splits > 0;
    ctx.count("splits", splits);
    drop(boxes);
    Ok(())
}

/// Every accessor of an inner node, each time through the node itself or through the generic
/// interface, against plain arrays.
fn fields<const W: usize>(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    struct Side<const W: usize> {
        n: Box<Node<W>>,
        height: u32,
        root: bool,
        keys: Vec<u64>,
        kids: Vec<usize>,
        nkeys: usize,
        parent: usize,
    }
    let make = |src: &mut Src| -> Side<W> {
        let height = src.below(4) as u32;
        let k = src.below(6);
        let n = match k {
            0 => Node::<W>::new(height),
            1 => Node::<W>::new_root(height),
            2 => TreeInternode::new_boxed(height),
            3 => TreeInternode::new_root_boxed(height),
            4 => {
                let host = Node::<W>::new(height);
                let g = host.version().lock();
                let n: Box<Node<W>> = TreeInternode::new_boxed_for_split(host.version(), height);
                n.version().unlock_for_split();
                drop(g);
                n
            }
            _ => Box::new(Node::<W>::default()),
        };
        let height = if k == 5 { n.height() } else { height };
        Side { n, height, root: matches!(k, 1 | 3), keys: vec![0; W], kids: vec![0; W + 1], nkeys: 0, parent: 0 }
    };
    let mut sides = [make(src), make(src)];
    let pool = words(src, 6);
    let mut kinds = 0u32;
    for _ in 0..src.urange(1, 40) {
        let own = src.chance(1, 2);
        let at = src.idx(2);
        let i = src.idx(W);
        let key = *src.pick(&pool);
        let addr = 0x1000 + 16 * src.urange(0, 60);
        let k = src.weighted(&[5, 5, 2, 3, 3, 2, 4]);
        kinds |= 1 << k;
        let what;
        if k == 6 {
            let (dst, from) = (src.urange(0, W - 1), src.urange(0, W - 1));
            let count = src.urange(0, W - dst.max(from));
            let (keys, kids) = (sides[1 - at].keys[from..from + count].to_vec(), sides[1 - at].kids[from + 1..=from + count].to_vec());
            let (a, b) = (&sides[at].n, &sides[1 - at].n);
            if own { a.shift_from(dst, b, from, count) } else { TreeInternode::shift_from(&**a, dst, b, from, count) }
            sides[at].keys[dst..dst + count].copy_from_slice(&keys);
            sides[at].kids[dst + 1..=dst + count].copy_from_slice(&kids);
            what = format!("shift_from({dst}, {from}, {count})");
        } else {
            let s = &mut sides[at];
            let n = &*s.n;
            what = match k {
                0 => {
                    s.keys[i] = key;
                    if own { n.set_ikey(i, key) } else { TreeInternode::set_ikey(n, i, key) }
                    format!("set_ikey({i}, {key:x})")
                }
                1 => {
                    let i = src.urange(0, W);
                    s.kids[i] = addr;
                    if own { n.set_child(i, addr as *mut u8) } else { TreeInternode::set_child(n, i, addr as *mut u8) }
                    format!("set_child({i})")
                }
                2 => {
                    s.keys[i] = key;
                    s.kids[i + 1] = addr;
                    if own { n.assign(i, key, addr as *mut u8) } else { TreeInternode::assign(n, i, key, addr as *mut u8) }
                    format!("assign({i}, {key:x})")
                }
                3 => {
                    s.nkeys = src.urange(0, W);
                    if own { n.set_nkeys(s.nkeys as u8) } else { TreeInternode::set_nkeys(n, s.nkeys as u8) }
                    format!("set_nkeys({})", s.nkeys)
                }
                4 if s.nkeys < W => {
                    s.nkeys += 1;
                    if own { n.inc_nkeys() } else { TreeInternode::inc_nkeys(n) }
                    "inc_nkeys".into()
                }
                _ => {
                    s.parent = if src.chance(1, 4) { 0 } else { addr };
                    if own { n.set_parent(s.parent as *mut u8) } else { TreeInternode::set_parent(n, s.parent as *mut u8) }
                    format!("set_parent({:x})", s.parent)
                }
            };
        }
        ctx.say(|| format!("{what}{} on {at}; ", if own { "" } else { " (generic)" }));
        for s in &sides {
            let n = &*s.n;
            for i in 0..W {
                ensure!(n.ikey(i) == s.keys[i] && TreeInternode::ikey(n, i) == s.keys[i], "after {what}: key {i} is {:x}, expected {:x}", n.ikey(i), s.keys[i]);
                let want = key.cmp(&s.keys[i]);
                ensure!(n.compare_key(key, i) == want && TreeInternode::compare_key(n, key, i) == want, "compare_key({key:x}, {i}) with key {:x}", s.keys[i]);
            }
            for i in 0..=W {
                ensure!(n.child(i) as usize == s.kids[i] && TreeInternode::child(n, i) as usize == s.kids[i], "after {what}: child {i} is {:?}, expected {:x}", n.child(i), s.kids[i]);
            }
            ensure!(n.nkeys() == s.nkeys && TreeInternode::nkeys(n) == s.nkeys && n.size() == s.nkeys && n.is_empty() == (s.nkeys == 0)
                && n.is_full() == (s.nkeys == W) && TreeInternode::is_full(n) == (s.nkeys == W), "after {what}: {} keys, expected {}", n.nkeys(), s.nkeys);
            ensure!(n.parent() as usize == s.parent && TreeInternode::parent(n) as usize == s.parent, "after {what}: another parent");
            ensure!(n.is_root() == s.root && TreeInternode::is_root(n) == s.root && !n.version().is_leaf() && !n.version().is_locked() && !n.version().is_dirty(),
                "after {what}: the version's marks changed");
            ensure!(n.height() == s.height && TreeInternode::height(n) == s.height && n.children_are_leaves() == (s.height == 0)
                && TreeInternode::children_are_leaves(n) == (s.height == 0), "after {what}: another height");
            n.prefetch();
            TreeInternode::prefetch(n);
        }
    }
    ctx.nontrivial = kinds.count_ones() >= 3;
    Ok(())
}

fn suites() -> Vec<Suite> {
    parts::hook();
    vec![Suite {
        id: "C18",
        rule: "at least one split (fields arms: at least three kinds of operation)",
        arms: vec![
            arm("width15", 2_600_000, 190_000_000, case::<15>),
            arm("width7", 2_000_000, 110_000_000, case::<7>),
            arm("width4", 1_300_000, 75_000_000, case::<4>),
            arm("width3", 920_000, 57_000_000, case::<3>),
            arm("width2", 530_000, 28_000_000, case::<2>),
            arm("fields15", 350_000, 30_000_000, fields::<15>),
            arm("fields4", 150_000, 15_000_000, fields::<4>),
        ],
        assumptions: vec!["keys of one level are distinct and are inserted at their sorted position, as the tree does"],
        pin: true,
        workers: 8,
    }]
}

fn main() {
    kit::runner::main(suites)
}
