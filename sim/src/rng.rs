//! The one pseudo-random source. Every choice of a run derives from it.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng {
            s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = (self.s[1].wrapping_mul(5)).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// weighted index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total.max(1));
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= *v;
        }
        0
    }
    /// values with interesting corner cases
    pub fn val(&mut self) -> u64 {
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => {
                let sh = self.below(64);
                (1u64 << sh).wrapping_sub(self.below(2))
            }
            4 => {
                let sh = self.below(64);
                (1u64 << sh).wrapping_neg().wrapping_add(self.below(2))
            }
            5 => self.u64() as i32 as i64 as u64,
            6 => *self.pick(&[
                0x8000_0000,
                0xffff_ffff_8000_0000,
                0x7fff_ffff,
                0x8000_0000_0000_0000,
                0x7fff_ffff_ffff_ffff,
                0xffff_ffff,
                0x1_0000_0000,
                0xffff_ffff_0000_0000,
            ]),
            7 => self.below(64),
            8 => self.u64() << 32,
            _ => self.u64(),
        }
    }
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^ (x >> 32)
}
