//! Small deterministic generator (splitmix64); every random choice of a
//! history comes from one of these.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn mix(parts: &[u64]) -> Self {
        let mut r = Self::new(0x1234_5678);
        for p in parts {
            r.0 = r.0.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ p;
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        if span == u64::MAX {
            return self.next();
        }
        lo + self.below(span + 1)
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn index(&mut self, len: usize) -> usize {
        self.below(len as u64) as usize
    }
    /// uniform in the exponent: all magnitudes up to `max`
    pub fn log(&mut self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(1, bits);
        let hi = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        self.range(0, hi.min(max))
    }
    pub fn weighted<'a, T>(&mut self, v: &'a [(u64, T)]) -> &'a T {
        let total: u64 = v.iter().map(|x| x.0).sum();
        let mut x = self.below(total);
        for (w, t) in v {
            if x < *w {
                return t;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn key(&mut self) -> solana_program::pubkey::Pubkey {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        solana_program::pubkey::Pubkey::new_from_array(b)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
