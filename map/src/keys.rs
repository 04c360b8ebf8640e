//! Key universes. Each family is described by a few choices so that it shrinks well.
use kit::Src;
use std::collections::HashSet;

pub type Key = Vec<u8>;

/// First integer of a dense run.
fn base(src: &mut Src, n: u64) -> u64 {
    match src.weighted(&[4, 2, 2, 2, 2]) {
        0 => 0x6161_6161_6161_6161,
        1 => 0,
        2 => (1u64 << 63).wrapping_sub(n / 2),
        3 => u64::MAX - n.min(u64::MAX - 1) * 2,
        _ => src.u64() >> src.below(40),
    }
}

pub fn prefix(src: &mut Src, max: usize) -> Key {
    let len = match src.weighted(&[3, 3, 2, 1]) {
        0 => 0,
        1 => 8 * src.urange(1, 3),
        2 => src.urange(1, 20),
        _ => src.urange(0, max),
    }
    .min(max);
    let b = *src.pick(b"p\0\xff\x80");
    vec![b; len]
}

/// `n` consecutive big-endian integers behind `pre`.
pub fn ints(pre: &[u8], start: u64, stride: u64, n: usize) -> Vec<Key> {
    (0..n as u64)
        .map(|i| {
            let mut k = pre.to_vec();
            k.extend_from_slice(&start.wrapping_add(i.wrapping_mul(stride)).to_be_bytes());
            k
        })
        .collect()
}

pub fn dense(src: &mut Src, n: usize, max_pre: usize) -> Vec<Key> {
    let pre = prefix(src, max_pre);
    let stride = *src.pick(&[1u64, 1, 2, 256, 1 << 16, 1 << 56]);
    let start = base(src, n as u64);
    ints(&pre, start, stride, n)
}

/// Short strings over a tiny alphabet behind a prefix.
pub fn strings(src: &mut Src, n: usize) -> Vec<Key> {
    const ALPHABETS: [&[u8]; 6] = [b"ab", b"\0a", b"\0\x01", b"a\xff", b"\x7f\x80", b"abcd"];
    let alpha: &[u8] = *src.pick(&ALPHABETS);
    let maxlen = *src.pick(&[3usize, 8, 10, 17, 26]);
    let pre = if src.chance(1, 3) { prefix(src, 24) } else { vec![] };
    (0..n)
        .map(|_| {
            let mut k = pre.clone();
            let l = src.urange(0, maxlen);
            for _ in 0..l {
                k.push(*src.pick(alpha));
            }
            k
        })
        .collect()
}

/// Keys that pad to the same 8-byte slice: `b`, `b\0`, `b\0\0`, …, plus longer ones.
pub fn zeros(src: &mut Src, n: usize) -> Vec<Key> {
    let pre = if src.chance(1, 3) { prefix(src, 24) } else { vec![] };
    let b = *src.pick(&[b'a', 0, 0x80, 0xff]);
    let blen = src.urange(0, 2);
    let tail = src.chance(1, 3);
    (0..n.min(20))
        .map(|i| {
            let mut k = pre.clone();
            k.extend(std::iter::repeat_n(b, blen));
            k.extend(std::iter::repeat_n(0u8, i));
            if tail && i % 3 == 2 {
                k.push(1);
            }
            k
        })
        .collect()
}

/// A same-slice group with smaller and greater neighbours.
pub fn around(src: &mut Src) -> Vec<Key> {
    let pre = if src.chance(1, 2) { prefix(src, 24) } else { vec![] };
    let less = src.urange(0, 16);
    let group = src.urange(1, 10);
    let more = src.urange(0, 16);
    let b = *src.pick(&[b'm', 1, 0x80, 0xfe]);
    let mut out = Vec::new();
    for i in 0..less {
        let mut k = pre.clone();
        k.extend_from_slice(&[b - 1, i as u8]);
        out.push(k);
    }
    for i in 0..group {
        let mut k = pre.clone();
        k.push(b);
        k.extend(std::iter::repeat_n(0u8, i));
        out.push(k);
    }
    for i in 0..more {
        let mut k = pre.clone();
        k.extend_from_slice(&[b, 1 + i as u8]);
        out.push(k);
    }
    out
}

/// Prefixes of one string.
pub fn chain(src: &mut Src, n: usize) -> Vec<Key> {
    let b = *src.pick(&[b'c', 0, 0xff]);
    let step = *src.pick(&[1usize, 2, 7, 8, 9, 16]);
    let from = src.urange(0, 32);
    let mut mutate = src.chance(1, 3);
    let mut out = Vec::new();
    for i in 0..n {
        let len = from + i * step;
        if len > 256 {
            break;
        }
        let mut k = vec![b; len];
        if mutate && len > 0 {
            k[len - 1] ^= 1;
            mutate = src.chance(1, 3);
        }
        out.push(k);
    }
    out
}

/// Long keys sharing a long prefix and differing late.
pub fn long(src: &mut Src, n: usize) -> Vec<Key> {
    let b = *src.pick(&[b'l', 0, 0xff, 0x80]);
    let len = src.urange(9, 256);
    (0..n)
        .map(|i| {
            let mut k = vec![b; len];
            let pos = match src.weighted(&[3, 2, 2]) {
                0 => len - 1,
                1 => src.idx(len),
                _ => (8 * src.idx(len.div_ceil(8))).min(len - 1),
            };
            k[pos] = k[pos].wrapping_add(1 + (i % 250) as u8);
            if src.chance(1, 4) {
                k.truncate(src.urange(0, len));
            }
            k
        })
        .collect()
}

pub fn random(src: &mut Src, n: usize) -> Vec<Key> {
    (0..n)
        .map(|_| {
            let l = src.logu(256) as usize;
            // A few choices per key: one seed byte and a stride keep it shrinkable.
            let (a, s) = (src.byte(), src.byte());
            (0..l).map(|i| a.wrapping_add((i as u8).wrapping_mul(s))).collect()
        })
        .collect()
}

/// Sub-layers: a few 8-byte-aligned prefixes, each with several short tails.
pub fn layers(src: &mut Src, n: usize) -> Vec<Key> {
    let np = src.urange(1, 4);
    let pres: Vec<Key> = (0..np)
        .map(|i| {
            let words = src.urange(1, 3);
            let mut k = vec![b'x'; words * 8];
            let at = src.idx(words) * 8 + 7;
            k[at] = i as u8;
            k
        })
        .collect();
    (0..n)
        .map(|i| {
            let mut k = pres[src.idx(np)].clone();
            match src.weighted(&[3, 2, 1]) {
                0 => k.extend_from_slice(&(i as u16).to_be_bytes()),
                1 => {
                    let l = src.urange(0, 9);
                    k.extend(std::iter::repeat_n(src.byte() & 3, l));
                }
                _ => {
                    let l = src.urange(0, k.len());
                    k.truncate(l);
                }
            }
            k
        })
        .collect()
}

/// One family of at most `n` keys.
pub fn family(src: &mut Src, n: usize) -> Vec<Key> {
    match src.weighted(&[4, 4, 2, 3, 2, 2, 2, 4]) {
        0 => dense(src, n, 48),
        1 => strings(src, n.min(400)),
        2 => zeros(src, n),
        3 => around(src),
        4 => chain(src, n),
        5 => long(src, n.min(200)),
        6 => random(src, n.min(200)),
        _ => layers(src, n.min(400)),
    }
}

/// Distinct keys from one to three families, in generated order.
pub fn pool(src: &mut Src, max: usize) -> Vec<Key> {
    let nf = 1 + src.weighted(&[5, 3, 2]);
    let mut all = Vec::new();
    for _ in 0..nf {
        let n = 1 + src.logu(max as u64 / nf as u64) as usize;
        all.extend(family(src, n));
    }
    dedup(all)
}

pub fn dedup(all: Vec<Key>) -> Vec<Key> {
    let mut seen = HashSet::new();
    all.into_iter().filter(|k| k.len() <= 256 && seen.insert(k.clone())).collect()
}

/// Put `keys` into one of several insertion orders.
pub fn order(src: &mut Src, keys: &mut Vec<Key>) -> &'static str {
    match src.weighted(&[3, 2, 2, 2, 2, 2, 1]) {
        0 => "given",
        1 => {
            keys.sort();
            "ascending"
        }
        2 => {
            keys.sort();
            keys.reverse();
            "descending"
        }
        3 => {
            shuffle(src, keys);
            "shuffled"
        }
        4 => {
            // outside in
            keys.sort();
            let n = keys.len();
            let mut out = Vec::with_capacity(n);
            for i in 0..n.div_ceil(2) {
                out.push(std::mem::take(&mut keys[i]));
                if n - 1 - i > i {
                    let j = n - 1 - i;
                    out.push(std::mem::take(&mut keys[j]));
                }
            }
            *keys = out;
            "outside-in"
        }
        5 => {
            // strided
            keys.sort();
            let n = keys.len();
            let step = src.urange(2, 30);
            let mut out = Vec::with_capacity(n);
            for s in 0..step {
                let mut i = s;
                while i < n {
                    out.push(std::mem::take(&mut keys[i]));
                    i += step;
                }
            }
            *keys = out;
            "strided"
        }
        _ => {
            keys.sort();
            let n = keys.len();
            keys.rotate_left(n / 2);
            "rotated"
        }
    }
}

/// Shuffle; large inputs take one seed choice instead of one choice per element.
pub fn shuffle(src: &mut Src, keys: &mut [Key]) {
    let n = keys.len();
    if n <= 64 {
        for i in 0..n.saturating_sub(1) {
            let j = i + src.idx(n - i);
            keys.swap(i, j);
        }
    } else {
        let mut r = kit::Rng::new(src.below(1 << 30));
        for i in (1..n).rev() {
            keys.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
}

/// Readable form of a key: runs are collapsed.
pub fn show(k: &[u8]) -> String {
    let mut s = String::from("[");
    let mut i = 0;
    while i < k.len() {
        let b = k[i];
        let mut j = i;
        while j < k.len() && k[j] == b {
            j += 1;
        }
        if i > 0 {
            s.push(' ');
        }
        if b.is_ascii_graphic() {
            s.push(b as char);
        } else {
            s.push_str(&format!("{b:02x}"));
        }
        if j - i > 1 {
            s.push_str(&format!("*{}", j - i));
        }
        i = j;
    }
    s.push(']');
    s
}
