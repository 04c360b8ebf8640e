//! Values whose own `Drop` uses the map: releasing one inserts into the map and reads from it.
use crate::keys::{self, Key, show};
use kit::{CaseResult, Ctx, Src, ensure, fail};
use masstree::MassTree;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Weak};

type Map = MassTree<Rv>;

pub struct Rv {
    id: Box<u64>,
}

/// How deep releases may nest; each depth has keys of its own.
const DEPTH: usize = 3;

#[derive(Default)]
struct World {
    maps: Vec<Weak<Map>>,
    models: Vec<BTreeMap<Key, u64>>,
    /// Keys for calls at each depth (0: the history itself).
    pools: Vec<Vec<Key>>,
    rng: Option<kit::Rng>,
    /// One release in this many acts.
    one_in: u64,
    depth: usize,
    /// Calls drops may still make within the present outer call: each can cause further drops.
    fuel: u32,
    drops: Vec<u8>,
    acted: u64,
    deepest: usize,
    error: Option<String>,
}

thread_local! {
    static W: RefCell<World> = RefCell::default();
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

fn value() -> Rv {
    with(|w| {
        w.drops.push(0);
        Rv { id: Box::new(w.drops.len() as u64 - 1) }
    })
}

fn complain(m: String) {
    with(|w| {
        w.error.get_or_insert(m);
    });
}

fn bounded<R>(f: impl FnOnce() -> R) -> R {
    with(|w| w.fuel = 150);
    crate::seq::bounded(f)
}

/// One call on map `i`, compared with its model.
fn act(map: &Map, i: usize, depth: usize, k: &Key, what: u64) {
    match what {
        0..=3 => {
            let v = value();
            let id = *v.id;
            let old = match map.insert(k, v) {
                Ok(o) => o,
                Err(e) => return complain(format!("insert({}) failed: {e:?}", show(k))),
            };
            let want = with(|w| w.models[i].insert(k.clone(), id));
            let got = old.as_ref().map(|o| *o.id);
            if got != want {
                complain(format!("insert({}) at depth {depth} replaced {got:?}, expected {want:?}", show(k)));
            }
        }
        4 => {
            let got = map.get(k).map(|v| *v.id);
            let want = with(|w| w.models[i].get(k).copied());
            if got != want {
                complain(format!("get({}) at depth {depth} gave {got:?}, expected {want:?}", show(k)));
            }
        }
        _ => {
            let g = map.guard();
            let got = map.get_ref(k, &g).map(|v| *v.id);
            let want = with(|w| w.models[i].get(k).copied());
            if got != want {
                complain(format!("get_ref({}) at depth {depth} gave {got:?}, expected {want:?}", show(k)));
            }
        }
    }
}

impl Drop for Rv {
    fn drop(&mut self) {
        let id = *self.id as usize;
        let job = with(|w| {
            w.drops[id] += 1;
            let depth = w.depth + 1;
            if depth >= DEPTH || w.maps.is_empty() || w.fuel == 0 {
                return None;
            }
            let one_in = w.one_in;
            let r = w.rng.as_mut()?;
            if r.below(one_in) != 0 {
                return None;
            }
            let i = r.below(w.maps.len() as u64) as usize;
            let (what, k) = (r.below(6), r.next() as usize);
            let pool = &w.pools[depth];
            let k = pool[k % pool.len()].clone();
            let map = w.maps[i].upgrade()?;
            w.depth = depth;
            w.deepest = w.deepest.max(depth);
            w.acted += 1;
            w.fuel -= 1;
            Some((map, i, depth, k, what))
        });
        if let Some((map, i, depth, k, what)) = job {
            act(&map, i, depth, &k, what);
            with(|w| w.depth = depth - 1);
        }
    }
}

/// C09, C11: releases that call the map again end, answer right and happen once each.
pub fn case(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut pool = match src.below(3) {
        0 => keys::pool(src, 200),
        1 => {
            let pfx = keys::prefix(src, 24);
            let n = 6 + src.idx(150);
            keys::ints(&pfx, 1 << 30, *src.pick(&[1u64, 5]), n)
        }
        _ => {
            let n = 6 + src.idx(40);
            keys::layers(src, n)
        }
    };
    pool = keys::dedup(pool);
    if pool.len() < 3 * DEPTH {
        return Ok(());
    }
    if src.chance(1, 2) {
        keys::shuffle(src, &mut pool);
    }
    let mut pools = vec![Vec::new(); DEPTH];
    for (i, k) in pool.iter().enumerate() {
        pools[i % DEPTH].push(k.clone());
    }
    let own = pools[0].clone();
    let nmaps = 1 + src.idx(2);
    let maps: Vec<Arc<Map>> = (0..nmaps).map(|_| Arc::new(Map::new())).collect();
    let one_in = *src.pick(&[1u64, 1, 2, 6]);
    let rng = kit::Rng::new(src.below(1 << 32));
    with(|w| {
        *w = World {
            maps: maps.iter().map(Arc::downgrade).collect(),
            models: vec![BTreeMap::new(); nmaps],
            pools,
            rng: Some(rng),
            one_in,
            ..World::default()
        };
    });
    let n = 1 + src.logu(900);
    let hot = *src.pick(&[own.len(), own.len(), 4, 1]);
    let mut guards: Vec<seize::LocalGuard<'_>> = Vec::new();
    let mut held: Vec<Arc<Rv>> = Vec::new();
    for _ in 0..n {
        let i = src.idx(nmaps);
        match src.weighted(&[40, 4, 2, 2, 2]) {
            0 => {
                let k = own[src.idx(hot.min(own.len()))].clone();
                bounded(|| act(&maps[i], i, 0, &k, 0));
            }
            1 => {
                let k = own[src.idx(own.len())].clone();
                bounded(|| act(&maps[i], i, 0, &k, 5));
            }
            2 => guards.push(maps[i].guard()),
            3 => {
                if !guards.is_empty() {
                    let j = src.idx(guards.len());
                    bounded(|| drop(guards.swap_remove(j)));
                }
            }
            _ => {
                let k = own[src.idx(own.len())].clone();
                if let Some(v) = bounded(|| maps[i].get(&k)) {
                    held.push(v);
                }
                if held.len() > 4 {
                    let j = src.idx(held.len());
                    bounded(|| drop(held.swap_remove(j)));
                }
            }
        }
        if let Some(e) = with(|w| w.error.take()) {
            fail!("{e}");
        }
    }
    bounded(|| drop(guards));
    bounded(|| drop(held));
    // No more calls from here on but those of a map that outlives another.
    for (i, m) in maps.iter().enumerate() {
        let model = with(|w| w.models[i].clone());
        for k in &pool {
            let got = bounded(|| m.get(k)).map(|v| *v.id);
            ensure!(got == model.get(k).copied(), "get({}) at the end gave {got:?}, expected {:?}", show(k), model.get(k));
        }
        ensure!(m.len() == model.len(), "length {} with {} keys", m.len(), model.len());
    }
    let (before, deepest) = with(|w| (w.acted, w.deepest));
    for m in maps {
        bounded(|| drop(m));
    }
    let (acted, drops, error) = with(|w| {
        w.rng = None;
        w.maps.clear();
        (w.acted, std::mem::take(&mut w.drops), w.error.take())
    });
    if let Some(e) = error {
        fail!("{e}");
    }
    for (id, d) in drops.iter().enumerate() {
        ensure!(*d == 1, "value {id} was dropped {d} times");
    }
    ctx.say(|| format!("{nmaps} maps, {n} calls, {acted} more by values being dropped ({} while a map was dropped), e.g. {}\n", acted - before,
        pool.iter().take(4).map(|k| show(k)).collect::<Vec<_>>().join(" ")));
    ctx.count("calls_by_drops", acted);
    ctx.count("nested_twice", u64::from(deepest > 1));
    ctx.count("during_teardown", u64::from(acted > before));
    ctx.nontrivial = before > 0;
    Ok(())
}
