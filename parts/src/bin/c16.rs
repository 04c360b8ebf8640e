//! Key slices against plain byte-string operations.
use kit::{CaseResult, Ctx, Src, Suite, ensure};
use masstree::key::{IKEY_SIZE, Key, MAX_KEY_LENGTH};
use parts::{arm, bytes, hex};
use std::cmp::Ordering;

fn slice_at(d: &[u8], off: usize) -> u64 {
    let mut b = [0u8; 8];
    for (i, x) in b.iter_mut().enumerate() {
        *x = d.get(off + i).copied().unwrap_or(0);
    }
    b.iter().fold(0, |a, x| a << 8 | u64::from(*x))
}

fn check(k: &Key<'_>, d: &[u8], n: usize, what: &str) -> CaseResult {
    let off = 8 * n;
    let rest = &d[off.min(d.len())..];
    ensure!(k.ikey() == slice_at(d, off), "{what}: slice {:x} at chunk {n} of {}", k.ikey(), hex(d));
    ensure!(k.shift_count() == n && k.is_shifted() == (n > 0), "{what}: shift_count {} at chunk {n} of {}", k.shift_count(), hex(d));
    ensure!(k.len() == d.len() && k.full_data() == d, "{what}: len {} of {}", k.len(), hex(d));
    ensure!(k.is_empty() == d.is_empty(), "{what}: is_empty {} of {}", k.is_empty(), hex(d));
    ensure!(k.current_len() == rest.len(), "{what}: current_len {} at chunk {n} of {}", k.current_len(), hex(d));
    ensure!(k.has_suffix() == (rest.len() > 8), "{what}: has_suffix {} at chunk {n} of {}", k.has_suffix(), hex(d));
    let suf = &rest[rest.len().min(8)..];
    ensure!(k.suffix() == suf && k.suffix_len() == suf.len() && k.suffix_start() == d.len() - suf.len(),
        "{what}: suffix {} (len {}, start {}) at chunk {n} of {}", hex(k.suffix()), k.suffix_len(), k.suffix_start(), hex(d));
    Ok(())
}

/// Walk over the chunks in both directions.
fn walk(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = bytes(src, 256);
    ctx.say(|| format!("{}: ", hex(&d)));
    let mut k = if src.chance(3, 4) { Key::new(&d) } else { Key::from_suffix(&d) };
    let mut n = 0;
    check(&k, &d, n, "new")?;
    for _ in 0..src.urange(1, 80) {
        let what = match src.weighted(&[8, 3, 1, 2]) {
            0 if k.has_suffix() => {
                k.shift();
                n += 1;
                "shift"
            }
            1 if n > 0 => {
                k.unshift();
                n -= 1;
                "unshift"
            }
            2 => {
                k.unshift_all();
                n = 0;
                "unshift_all"
            }
            3 => {
                // shift_by may go as far as there is a suffix at each step
                let most = (d.len() - 8 * n).saturating_sub(1) / 8;
                let by = src.urange(0, most);
                k.shift_by(8 * by);
                n += by;
                "shift_by"
            }
            _ => continue,
        };
        ctx.say(|| format!("{what}->{n} "));
        check(&k, &d, n, what)?;
        let copy = k;
        check(&copy, &d, n, "copy")?;
        let fresh = Key::from_suffix(&d[8 * n..]);
        ensure!(fresh.ikey() == k.ikey() && fresh.suffix() == k.suffix() && fresh.has_suffix() == k.has_suffix() && fresh.current_len() == k.current_len(),
            "a key of the rest differs from the shifted key at chunk {n} of {}", hex(&d));
    }
    for _ in 0..3 {
        let off = src.urange(0, 270);
        ensure!(Key::read_ikey(&d, off) == slice_at(&d, off), "read_ikey at {off} of {}", hex(&d));
    }
    if (1..8).contains(&d.len()) {
        ensure!(Key::read_ikey_slow(&d) == slice_at(&d, 0), "read_ikey_slow of {}", hex(&d));
    }
    ctx.nontrivial = d.len() > 8;
    Ok(())
}

/// Chunk-wise comparison is byte-string comparison.
fn order(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let a = bytes(src, 60);
    let b = match src.below(5) {
        0 => bytes(src, 60),
        1 => {
            let mut b = a.clone();
            b.truncate(src.urange(0, a.len()));
            b
        }
        2 => {
            let mut b = a.clone();
            b.extend(std::iter::repeat_n(*src.pick(b"\0\0a"), src.urange(0, 10)));
            b
        }
        3 if !a.is_empty() => {
            let mut b = a.clone();
            let i = src.idx(a.len());
            b[i] = b[i].wrapping_add(*src.pick(&[1, 0x80, 0xff]));
            b
        }
        _ => {
            let mut b = a.clone();
            b.truncate(src.urange(0, a.len()));
            let more = bytes(src, 12);
            b.extend(more);
            b
        }
    };
    ctx.say(|| format!("{} vs {}", hex(&a), hex(&b)));
    let (mut ka, mut kb) = (Key::new(&a), Key::new(&b));
    let mut layers = 0;
    let got = loop {
        // b plays the stored key: inline length, or more than 8 for one with a suffix
        let stored = kb.current_len().min(9);
        let c = ka.compare(kb.ikey(), stored);
        ensure!(Key::compare_ikey(ka.ikey(), kb.ikey()) == ka.ikey().cmp(&kb.ikey()), "compare_ikey({:x}, {:x})", ka.ikey(), kb.ikey());
        if kb.has_suffix() {
            for l in [kb.current_len(), 64, 128, 255] {
                ensure!(ka.compare(kb.ikey(), l) == c, "comparing {} with a stored key with suffix depends on its length code {l}", hex(&a));
            }
        }
        if c != Ordering::Equal || !(ka.has_suffix() && kb.has_suffix()) {
            break c;
        }
        ka.shift();
        kb.shift();
        layers += 1;
    };
    ensure!(got == a.cmp(&b), "{} compares {got:?} with {}, expected {:?}", hex(&a), hex(&b), a.cmp(&b));
    ctx.nontrivial = layers > 0 || (!a.is_empty() && !b.is_empty() && a[0] == b[0]);
    Ok(())
}

/// Over-long keys are refused.
fn limit(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ensure!(MAX_KEY_LENGTH == 256 && IKEY_SIZE == 8, "limits changed");
    let n = match src.below(3) {
        0 => src.urange(250, 262),
        1 => src.urange(0, 256),
        _ => 257 + src.logu(100_000) as usize,
    };
    let d = vec![src.byte(); n];
    let r = std::panic::catch_unwind(|| Key::new(&d).len());
    ensure!(r.is_ok() == (n <= 256), "a key of {n} bytes was {}", if r.is_ok() { "accepted" } else { "refused" });
    ensure!(r.is_err() || r.is_ok_and(|l| l == n), "a key of {n} bytes has another length");
    ctx.say(|| format!("{n} bytes"));
    ctx.nontrivial = n > 240;
    Ok(())
}

/// A slice taken on its own.
fn single(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = parts::words(src, 2)[1];
    let k = Key::from_ikey(v);
    let b = v.to_be_bytes();
    ensure!(k.ikey() == v && !k.is_shifted() && !k.has_suffix() && k.suffix().is_empty(), "from_ikey({v:x}) gives {:x}", k.ikey());
    let sig = b.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
    ensure!(k.suffix_start() == sig, "from_ikey({v:x}) has {} significant bytes, expected {sig}", k.suffix_start());
    for n in 0..=8 {
        if b[n..].iter().all(|x| *x == 0) {
            ensure!(Key::new(&b[..n]).ikey() == v, "the first {n} bytes of {v:x} give another slice");
        }
    }
    ctx.say(|| format!("{v:x}"));
    ctx.nontrivial = v != 0;
    Ok(())
}

fn suites() -> Vec<Suite> {
    vec![Suite {
        id: "C16",
        rule: "walks of keys longer than one chunk; comparisons of keys with a common first byte or chunk; lengths above 240; non-zero slices",
        arms: vec![
            arm("walk", 10_000_000, 650_000_000, walk),
            arm("order", 20_000_000, 1_300_000_000, order),
            arm("limit", 340_000, 11_000_000, limit),
            arm("single", 6_700_000, 430_000_000, single),
        ],
        assumptions: vec!["shift is called only when there is a suffix, unshift only after a shift, as documented"],
        pin: true,
        workers: 8,
    }]
}

fn main() {
    kit::runner::main(suites)
}
