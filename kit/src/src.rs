//! Choice source: every generated value is a sequence of bounded choices, which is
//! what gets recorded, replayed and shrunk (0 is always the simplest choice).
use crate::rng::Rng;

#[derive(Debug)]
pub struct Src {
    rng: Option<Rng>,
    data: Vec<u64>,
    pos: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self { rng: Some(Rng::new(seed)), data: Vec::new(), pos: 0 }
    }

    pub fn replay(data: Vec<u64>) -> Self {
        Self { rng: None, data, pos: 0 }
    }

    /// Choices consumed so far.
    pub fn taken(&self) -> &[u64] {
        &self.data[..self.pos.min(self.data.len())]
    }

    /// A choice in `0..n`.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.below(n);
                self.data.push(v);
                v
            }
            None => self.data.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        v
    }

    #[inline]
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range, `lo` simplest.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi.saturating_sub(lo) + 1)
    }

    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    /// True with probability `num/den` (false is simplest).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    /// Index by weight (index 0 simplest).
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }

    /// Log-uniform in `0..=max`.
    pub fn logu(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1u64 << (b - 1);
        let hi = ((1u128 << b) - 1).min(max as u128) as u64;
        self.range(lo, hi.max(lo))
    }

    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }

    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }

    /// A shuffled `0..n` (identity is simplest).
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.idx(n - i);
            v.swap(i, j);
        }
        v
    }
}

/// Shrink `data` while `fails` keeps returning true; bounded by `budget` evaluations and wall time.
pub fn shrink(
    mut data: Vec<u64>,
    budget: usize,
    max_secs: f64,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let start = std::time::Instant::now();
    let mut evals = 0usize;
    // `fails` returns the choices actually consumed when the candidate fails.
    let mut attempt = |cand: &[u64], evals: &mut usize| -> Option<Vec<u64>> {
        if *evals >= budget || start.elapsed().as_secs_f64() > max_secs {
            return None;
        }
        *evals += 1;
        fails(cand)
    };
    let smaller = |a: &[u64], b: &[u64]| -> bool {
        (a.len(), a.iter().map(|&x| x as u128).sum::<u128>())
            < (b.len(), b.iter().map(|&x| x as u128).sum::<u128>())
    };
    loop {
        let before = (data.len(), data.iter().map(|&x| x as u128).sum::<u128>());
        // 1. delete chunks
        let mut size = (data.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < data.len() {
                let end = (i + size).min(data.len());
                let mut cand = data[..i].to_vec();
                cand.extend_from_slice(&data[end..]);
                match attempt(&cand, &mut evals) {
                    Some(used) if smaller(&used, &data) => data = used,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 2. zero chunks
        for size in [32usize, 8, 2, 1] {
            let mut i = 0;
            while i < data.len() {
                let end = (i + size).min(data.len());
                if data[i..end].iter().any(|&x| x != 0) {
                    let mut cand = data.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    if let Some(used) = attempt(&cand, &mut evals)
                        && smaller(&used, &data)
                    {
                        data = used;
                    }
                }
                i += size;
            }
        }
        // 3. lower single values
        let mut i = 0;
        while i < data.len() {
            let mut lo = 0u64;
            while i < data.len() && lo < data[i] {
                let mid = lo + (data[i] - lo) / 2;
                let mut cand = data.clone();
                cand[i] = mid;
                match attempt(&cand, &mut evals) {
                    Some(used) if smaller(&used, &data) => data = used,
                    _ => lo = mid + 1,
                }
                if evals >= budget {
                    break;
                }
            }
            i += 1;
        }
        let after = (data.len(), data.iter().map(|&x| x as u128).sum::<u128>());
        if after >= before || evals >= budget || start.elapsed().as_secs_f64() > max_secs {
            return data;
        }
    }
}
