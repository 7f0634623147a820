//! Small deterministic PRNG (splitmix64 / xoshiro256**), so that every case is replayable from its seed.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed ^ 0xD1B54A32D192ED03;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }
    pub fn u128(&mut self) -> u128 { (self.u64() as u128) << 64 | self.u64() as u128 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn fork(&mut self) -> Rng { Rng::new(self.u64()) }
    pub fn i32v(&mut self) -> i32 {
        match self.below(8) {
            0 => *self.pick(&[0, 1, -1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 63, 64]),
            1 => *self.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, i32::MAX - 1, 0x7fff, 0x8000, 0xffff, 0x10000, -0x8000, -0x8001, 0x7f, 0x80, 0xff, 0x100, -0x80, -0x81]),
            2 => 1i32.wrapping_shl(self.u32() & 31),
            3 => 1i32.wrapping_shl(self.u32() & 31).wrapping_sub(1),
            4 => (self.u32() & 0xff) as i32 - 100,
            5 => (self.u32() & 0xffff) as i32,
            _ => self.u32() as i32,
        }
    }
    pub fn i64v(&mut self) -> i64 {
        match self.below(8) {
            0 => *self.pick(&[0, 1, -1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 63, 64, 65]),
            1 => *self.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff, 0x8000_0000, -0x8000_0000, -0x8000_0001, 0xff, 0x80, 0x8000]),
            2 => 1i64.wrapping_shl(self.u32() & 63),
            3 => 1i64.wrapping_shl(self.u32() & 63).wrapping_sub(1),
            4 => (self.u32() & 0xff) as i64 - 100,
            5 => self.i32v() as i64,
            6 => self.i32v() as u32 as i64,
            _ => self.u64() as i64,
        }
    }
    pub fn f32bits(&mut self) -> u32 {
        match self.below(10) {
            0 => *self.pick(&[0u32, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x0000_0001, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0xff7f_ffff]),
            1 => (self.i32v() as f32).to_bits(),
            2 => ((self.u32() & 0xff) as f32 * 0.5 - 32.0).to_bits(),
            3 => *self.pick(&[0x4f00_0000u32, 0x4eff_ffff, 0xcf00_0000, 0xcf00_0001, 0x4f80_0000, 0x4f7f_ffff, 0x5f00_0000, 0x5eff_ffff, 0xdf00_0000, 0xdf00_0001, 0x5f80_0000, 0x5f7f_ffff, 0xbf7f_ffff, 0x3f00_0000, 0xbf00_0000, 0x4b00_0000, 0x4aff_ffff, 0x4b00_0001, 0x3eff_ffff, 0x3f7f_ffff]),
            4 if self.chance(1, 3) => 0x7f80_0000 | (self.u32() & 0x807f_ffff),
            5 | 6 => ((self.u64() as i64 as f64 / 1e15) as f32).to_bits(),
            7 => (0x3f80_0000u32).wrapping_add(self.u32() & 0xff),
            _ => self.u32(),
        }
    }
    pub fn f64bits(&mut self) -> u64 {
        match self.below(10) {
            0 => *self.pick(&[0u64, 1 << 63, 0x3ff0_0000_0000_0000, 0xbff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0xfff8_0000_0000_0000, 1, (1 << 63) | 1, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 0xffef_ffff_ffff_ffff]),
            1 => (self.i64v() as f64).to_bits(),
            2 => ((self.u32() & 0xff) as f64 * 0.5 - 32.0).to_bits(),
            3 => self.pick(&[2147483648.0f64, 2147483647.0, 2147483647.9, 2147483648.5, -2147483648.0, -2147483648.9, -2147483649.0, 4294967296.0, 4294967295.0, 4294967295.9, 9223372036854775808.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551616.0, 18446744073709549568.0, -0.9, -1.0, -0.5, 0.5, 0.49999999999999994, 4503599627370496.0, 4503599627370495.5, 4503599627370497.5]).to_bits(),
            4 if self.chance(1, 3) => 0x7ff0_0000_0000_0000 | (self.u64() & 0x800f_ffff_ffff_ffff),
            5 | 6 => (self.u64() as i64 as f64 / 1e15).to_bits(),
            7 => (f32::from_bits(self.f32bits()) as f64).to_bits(),
            8 => { let b = f64::from_bits((f32::from_bits(self.u32()) as f64).to_bits()).to_bits(); b.wrapping_add(*self.pick(&[0, 1, 0x1000_0000, 0x0fff_ffff, 0x1000_0001u64])) }
            _ => self.u64(),
        }
    }
    pub fn v128v(&mut self) -> u128 {
        match self.below(8) {
            0 => 0,
            1 => u128::MAX,
            2 => { let mut x = 0u128; for i in 0..4 { x |= (self.f32bits() as u128) << (32 * i) } x }
            3 => self.f64bits() as u128 | (self.f64bits() as u128) << 64,
            4 => { let mut x = 0u128; for i in 0..4 { x |= (self.i32v() as u32 as u128) << (32 * i) } x }
            5 => { let mut x = 0u128; for i in 0..8 { x |= (*self.pick(&[0u16, 1, 0x7fff, 0x8000, 0x8001, 0xffff, 0xff, 0x80, 0x7f]) as u128) << (16 * i) } x }
            6 => { let mut x = 0u128; for i in 0..16 { x |= (*self.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff, 15, 16, 31, 8]) as u128) << (8 * i) } x }
            _ => self.u128(),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) } }
}
