//! Deterministic random numbers; every choice in a case derives from (seed, property, case).

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, case: u64) -> Self {
        let mut h = mix(seed);
        for b in stream.bytes() {
            h = mix(h ^ b as u64);
        }
        Rng(mix(h ^ mix(case)))
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }

    /// Uniform in a..=b.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }

    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }

    pub fn pick<'a, T>(&mut self, values: &'a [T]) -> &'a T {
        &values[self.below(values.len() as u64) as usize]
    }

    pub fn u16(&mut self) -> u16 {
        match self.below(12) {
            0 => *self.pick(&[0, 1, 2, 3, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x00FF, 0x0100]),
            1 | 2 => self.below(32) as u16,
            _ => self.next() as u16,
        }
    }

    pub fn u32(&mut self) -> u32 {
        match self.below(8) {
            0 => *self.pick(&[0, 1, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
            _ => self.next() as u32,
        }
    }
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut chunks = bytes.chunks_exact(8);
    for c in &mut chunks {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    for b in chunks.remainder() {
        h = mix(h ^ *b as u64);
    }
    mix(h ^ bytes.len() as u64)
}
