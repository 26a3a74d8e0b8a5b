//! Small deterministic PRNG (splitmix64).

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// FNV-1a followed by a finaliser; used for case identities.
pub fn hash(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for chunk in bytes.chunks(8) {
        let mut v = 0u64;
        for (i, b) in chunk.iter().enumerate() {
            v |= (*b as u64) << (8 * i);
        }
        h = (h ^ v).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    mix(h ^ bytes.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15))
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }

    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// True with probability num/den.
    pub fn p(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }

    pub fn fill(&mut self, v: &mut [u8]) {
        for c in v.chunks_mut(8) {
            let r = self.next().to_le_bytes();
            c.copy_from_slice(&r[..c.len()]);
        }
    }
}

/// The same on every platform, for values hashed by derived implementations.
#[derive(Default)]
pub struct Portable(Vec<u8>);

impl std::hash::Hasher for Portable {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn write_u16(&mut self, x: u16) {
        self.write(&x.to_le_bytes())
    }
    fn write_u32(&mut self, x: u32) {
        self.write(&x.to_le_bytes())
    }
    fn write_u64(&mut self, x: u64) {
        self.write(&x.to_le_bytes())
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as i64 as u64)
    }
    fn finish(&self) -> u64 {
        hash(&self.0)
    }
}
