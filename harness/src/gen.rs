//! Choice streams: every generator draws bounded integers from a [`Src`]; the draws are logged so that a case can be
//! replayed and shrunk whatever the generator does with them.

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut sm = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        let a = sm();
        let b = sm() | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
}

/// Payload of the unwinding used when a case draws too much.
pub struct Overrun;

pub struct Src {
    rng: Option<Rng>,
    script: Vec<u64>,
    pos: usize,
    pub log: Vec<u64>,
    pub limit: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), script: vec![], pos: 0, log: vec![], limit: 200_000 }
    }
    pub fn replay(script: Vec<u64>) -> Self {
        Src { rng: None, script, pos: 0, log: vec![], limit: 200_000 }
    }
    /// Uniform in `0..n` (0 when n <= 1).
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if self.log.len() >= self.limit {
            std::panic::panic_any(Overrun);
        }
        let v = match &mut self.rng {
            Some(r) => (((r.next() >> 1) as u128 * n as u128) >> 63) as u64,
            None => {
                let v = self.script.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.log.push(v);
        v
    }
    /// In `lo..=hi`, shrinking to lo.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn choose<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// Index drawn with the given weights (shrinks to the first).
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    /// Removes and returns a random element.
    pub fn take<T>(&mut self, xs: &mut Vec<T>) -> T {
        let i = self.below(xs.len());
        xs.remove(i)
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// A float that is usually "interesting".
    pub fn float(&mut self) -> f64 {
        match self.below(4) {
            0 => self.irange(-8, 8) as f64 / 4.0,
            1 => self.irange(-8, 8) as f64,
            2 => self.irange(-4000, 4000) as f64 / 1000.0,
            _ => (self.draw(1 << 53) as f64 / (1u64 << 53) as f64) * 8.0 - 4.0,
        }
    }
}

/// Shrinks `script` while `fails` (which returns the log of the re-run case when it still fails).
pub fn shrink(script: Vec<u64>, mut budget: usize, deadline: std::time::Instant, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = script;
    let mut improved = true;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if budget == 0 || std::time::Instant::now() > deadline {
                return best;
            }
            budget -= 1;
            match fails(&cand) {
                Some(log) if smaller(&log, &best) => {
                    best = log;
                    improved = true;
                    true
                }
                _ => false,
            }
        }};
    }
    while improved {
        improved = false;
        // delete chunks
        let mut size = best.len().next_power_of_two() / 2;
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if i <= best.len() {
                    let mut c = best.clone();
                    c.drain(lo..i);
                    attempt!(c);
                }
                i = lo;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len().next_power_of_two() / 4).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += size;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                for w in [v / 2, v - 1] {
                    if i < best.len() && w < best[i] {
                        let mut c = best.clone();
                        c[i] = w;
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }
    }
    best
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}
