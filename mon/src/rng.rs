//! Small deterministic generator (xoshiro256**), independent of the crate under test.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Mixes any number of values into one seed.
pub fn mix(vals: &[u64]) -> u64 {
    let mut x = 0x1234_5678_9abc_def0u64;
    let mut out = 0u64;
    for v in vals {
        x ^= *v;
        out = out.rotate_left(17) ^ splitmix(&mut x);
    }
    out
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 { (self.next() >> 32) as u32 }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n <= 1 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n { v.extend_from_slice(&self.next().to_le_bytes()); }
        v.truncate(n);
        v
    }
    /// A value biased to the interesting corners of 64-bit arithmetic.
    pub fn value(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => u64::MAX,
            2 => *self.pick(&[1, 2, 3, 4, 7, 8, 31, 32, 63, 64, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff]),
            3 => *self.pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0xffff_ffff_8000_0000, 0xffff_ffff_7fff_ffff]),
            4 => *self.pick(&[i64::MIN as u64, i64::MAX as u64, (i64::MIN + 1) as u64, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa]),
            5 => 1u64 << self.below(64),
            6 => (1u64 << self.below(64)).wrapping_sub(1),
            7 => !(1u64 << self.below(64)),
            8 => self.next() & 0xff,
            9 => self.next() as i32 as i64 as u64,
            10 => (self.next() >> self.below(64)).wrapping_neg(),
            _ => self.next(),
        }
    }
}
