//! The only source of randomness in the simulator: a splitmix64 stream derived from one integer.
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5EED_0F_5EED))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) < num as usize
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
}

/// FNV-1a, used for event digests (never for anything the library sees)
#[derive(Clone, Copy)]
pub struct Dig(pub u64);
impl Dig {
    pub fn new() -> Self {
        Dig(0xcbf2_9ce4_8422_2325)
    }
    pub fn b(&mut self, x: u8) {
        self.0 = (self.0 ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    pub fn u(&mut self, x: u64) {
        for b in x.to_le_bytes() {
            self.b(b)
        }
    }
    pub fn s(&mut self, x: &[u8]) {
        self.u(x.len() as u64);
        for b in x {
            self.b(*b)
        }
    }
}
