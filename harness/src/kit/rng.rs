//! Small deterministic generator: every random choice of a case comes from its seed.
use std::sync::{Arc, Mutex};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

/// A shareable generator (cloning shares the state).
#[derive(Clone, Debug)]
pub struct Rng(Arc<Mutex<u64>>);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(Arc::new(Mutex::new(mix(seed))))
    }
    pub fn fork(&self) -> Rng {
        Rng::new(self.u64())
    }
    pub fn u64(&self) -> u64 {
        let mut s = self.0.lock().unwrap();
        *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: u64) -> u64 {
        assert!(n > 0);
        self.u64() % n
    }
    pub fn range(&self, a: u64, b_incl: u64) -> u64 {
        a + self.below(b_incl - a + 1)
    }
    pub fn us(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability `pct` percent
    pub fn pct(&self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn f64(&self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// index drawn with the given weights
    pub fn weighted(&self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
}
