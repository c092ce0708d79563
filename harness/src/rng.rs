//! Small deterministic PRNG (xoshiro256++ seeded by splitmix64).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x100_0000_01b3);
    }
    mix(h ^ b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0; 4];
        for x in s.iter_mut() {
            z = mix(z);
            *x = z;
        }
        s[0] |= 1;
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.u64()) * n.max(1) as u128) >> 64) as usize
    }
    /// Within the range nearly always; once in a while far more, so that what grows or counts
    /// with repetition comes to light.
    pub fn mostly(&mut self, lo: usize, hi: usize) -> usize {
        if self.below(160) == 0 {
            self.range(60, 600)
        } else {
            self.range(lo, hi)
        }
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// A number the code under test mentions, or a neighbour of one.
    pub fn lit(&mut self) -> u64 {
        let n = *self.pick(crate::dict::NUMS);
        match self.below(4) {
            0 => n.wrapping_add(1),
            1 => n.wrapping_sub(1),
            _ => n,
        }
    }
    /// Such a number if it is at most `max`.
    pub fn lit_upto(&mut self, max: usize) -> Option<usize> {
        usize::try_from(self.lit()).ok().filter(|n| *n <= max)
    }
    /// A text or character the code under test mentions.
    pub fn lit_text(&mut self) -> &'static str {
        *self.pick(crate::dict::TEXTS)
    }
    pub fn tid(&mut self) -> [u8; 12] {
        let mut t = [0; 12];
        match self.below(10) {
            9 => {
                // the magic cookie (of this message, or of one nested in it) at some place
                t.copy_from_slice(&self.bytes(12));
                let i = *self.pick(&[0usize, 0, 4, 8, 1, 6]);
                t[i..i + 4].copy_from_slice(&[0x21, 0x12, 0xa4, 0x42]);
            }
            8 => {
                // a number at one of its ends, in one byte or in all
                let n = self.lit();
                match self.below(4) {
                    0 => t[4..].copy_from_slice(&n.to_be_bytes()),
                    1 => t[..8].copy_from_slice(&n.to_be_bytes()),
                    2 => t = [n as u8; 12],
                    _ => {
                        t.copy_from_slice(&self.bytes(12));
                        let i = self.below(12);
                        if self.bool() {
                            t[i] = n as u8;
                        } else {
                            let i = i.min(8);
                            t[i..i + 4].copy_from_slice(&(n as u32).to_be_bytes());
                        }
                    }
                }
            }
            0 => {}
            1 => t = [0xff; 12],
            2 => {
                for (i, b) in t.iter_mut().enumerate() {
                    *b = i as u8 + 1;
                }
            }
            _ => t.copy_from_slice(&self.bytes(12)),
        }
        t
    }
}
