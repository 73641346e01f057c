//! Deterministic random source: every case is a function of (seed, property, index).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64, idx: u64) -> Self {
        let mut x = seed
            .wrapping_mul(0xa076_1d64_78bd_642f)
            .wrapping_add(stream.wrapping_mul(0xe703_7ed1_a0b4_28db))
            .wrapping_add(idx.wrapping_mul(0x8ebc_6af0_9c88_c6e3));
        let s = [
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ];
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi - lo == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// bytes with structure: runs of 00/ff, counters and random
    pub fn texture(&mut self, n: usize) -> Vec<u8> {
        match self.below(13) / 2 {
            6 => {
                // text, cut anywhere
                let s = "a\u{e9}\u{20ac}\u{1f600}/:= \n%s{}".as_bytes();
                let k = self.usize(0, s.len() - 1);
                (0..n).map(|i| s[(i + k) % s.len()]).collect()
            }
            0 => vec![0u8; n],
            1 => vec![0xffu8; n],
            2 => (0..n).map(|i| i as u8).collect(),
            3 => {
                let mut v = self.bytes(n);
                for b in v.iter_mut() {
                    if *b & 1 == 0 {
                        *b = 0
                    }
                }
                v
            }
            _ => self.bytes(n),
        }
    }
}
