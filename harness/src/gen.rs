//! Seeded input generators: hostile mixes of special values, their neighbours, integers and
//! halves, decimal-looking numbers, log-uniform magnitudes and raw bit patterns.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0x1234_5678_9abc_def1, |h, b| mix(h ^ b as u64))
}

pub struct Rng(u64);

/// Values around which code tends to branch.
pub const SPECIALS: &[f32] = &[
    0.0,
    f32::from_bits(1),
    f32::from_bits(0x0040_0000),
    f32::from_bits(0x007f_ffff),
    f32::MIN_POSITIVE,
    1e-30,
    1e-20,
    5.4e-20,
    1.084_202_2e-19,
    1e-10,
    f32::EPSILON,
    1e-6,
    1e-4,
    0.01,
    0.1,
    0.25,
    1.0 / 3.0,
    0.5,
    std::f32::consts::LN_2,
    std::f32::consts::FRAC_1_SQRT_2,
    0.75,
    std::f32::consts::FRAC_PI_4,
    1.0,
    std::f32::consts::SQRT_2,
    1.5,
    std::f32::consts::FRAC_PI_2,
    2.0,
    2.5,
    std::f32::consts::E,
    3.0,
    std::f32::consts::PI,
    4.0,
    3.0 * std::f32::consts::FRAC_PI_2,
    6.0,
    std::f32::consts::TAU,
    7.0,
    8.0,
    9.0,
    10.0,
    16.0,
    64.0,
    87.336_55,
    88.722_84,
    100.0,
    103.97,
    127.0,
    128.0,
    255.0,
    256.0,
    1000.0,
    1024.0,
    32767.0,
    32768.0,
    65535.0,
    65536.0,
    1e6,
    4_194_304.0,
    8_388_607.5,
    8_388_608.0,
    16_777_216.0,
    1_073_741_824.0,
    2_147_483_648.0,
    4_294_967_296.0,
    8_589_934_592.0,
    1e10,
    9.223_372e18,
    1.844_674_4e19,
    1e20,
    1e30,
    4.253_529_6e37,
    8.507_059e37,
    1.701_411_8e38,
    f32::MAX,
    f32::INFINITY,
];

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() >> 32).wrapping_mul(n)) >> 32
    }
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, one_in: u64) -> bool {
        self.below(one_in) == 0
    }
    /// Uniform in [0, 1).
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, lo: f32, hi: f32) -> f32 {
        (lo as f64 + self.unit() * (hi as f64 - lo as f64)) as f32
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    pub fn sign(&mut self, x: f32) -> f32 {
        if self.u64() & 1 == 0 {
            -x
        } else {
            x
        }
    }
    /// Random mantissa and sign, binary exponent in `lo..=hi`.
    pub fn log(&mut self, lo: i32, hi: i32) -> f32 {
        let e = self.range(lo as i64, hi as i64) as i32;
        let m = match self.below(8) {
            0 => 0,
            1 => 0x7f_ffff,
            2 => 0x40_0000,
            3 => (self.u32() & 7) << 20,
            _ => self.u32() & 0x7f_ffff,
        };
        f32::from_bits((self.u32() & 0x8000_0000) | (((e + 127) as u32) << 23) | m)
    }
    /// A special value, or one a few units in the last place away from it, of either sign.
    pub fn special(&mut self) -> f32 {
        let x = self.pick(SPECIALS);
        let b = x.to_bits();
        let d = match self.below(4) {
            0 => self.range(-3, 3),
            1 => self.range(-300, 300),
            _ => 0,
        };
        let b = (b as i64 + d).clamp(0, 0x7f80_0000) as u32;
        let x = f32::from_bits(b);
        self.sign(x)
    }
    /// Integers and halves, of all magnitudes.
    pub fn intish(&mut self) -> f32 {
        let k = self.below(33) as u32;
        let x = self.below(1u64 << k) as f32;
        let x = match self.below(4) {
            0 => x + 0.5,
            1 => f32::from_bits(x.to_bits().wrapping_add(self.below(5) as u32).wrapping_sub(2) & 0x7fff_ffff),
            _ => x,
        };
        let x = if x.is_nan() { 1.0 } else { x };
        self.sign(x)
    }
    /// Numbers of the kind people write: k / 10^j.
    pub fn decimal(&mut self) -> f32 {
        let k = self.below(100_000) as f64;
        let j = self.below(7) as i32;
        self.sign((k / 10f64.powi(j)) as f32)
    }
    /// Any value, NaN included.
    pub fn any(&mut self) -> f32 {
        match self.below(64) {
            0 => f32::from_bits(0x7fc0_0000 | (self.u32() & 0x803f_ffff)),
            1 => f32::from_bits(0x7f80_0001 | (self.u32() & 0x807f_ffff)),
            2 | 3 => {
                let x = self.pick(&[f32::INFINITY, 0.0]);
                self.sign(x)
            }
            4..=11 => f32::from_bits(self.u32()),
            _ => self.hostile(),
        }
    }
    /// Any value but NaN.
    pub fn hostile(&mut self) -> f32 {
        match self.below(16) {
            0..=3 => self.special(),
            4..=6 => self.intish(),
            7 | 8 => self.decimal(),
            9..=11 => self.log(-20, 20),
            12 => self.log(-126, 127),
            13 => self.log(-127, -100),
            _ => self.log(-4, 8),
        }
    }
    pub fn finite(&mut self) -> f32 {
        loop {
            let x = self.hostile();
            if x.is_finite() {
                return x;
            }
        }
    }
    /// Finite, zero or of a magnitude in 2^lo .. 2^(hi+1).
    pub fn moderate(&mut self, lo: i32, hi: i32) -> f32 {
        let (a, b) = (2f32.powi(lo), 2f32.powi(hi) * 1.999_999_9);
        match self.below(16) {
            0 => self.sign(0.0),
            1 => self.sign(1.0),
            2..=4 => self.log(lo, hi),
            5 => self.sign(a),
            6 => self.sign(b),
            _ => loop {
                let x = self.hostile();
                if x == 0.0 || (x.abs() >= a && x.abs() <= b) {
                    return x;
                }
            },
        }
    }
    /// A value related to `x`: equal, opposite, reciprocal, a multiple, a neighbour.
    pub fn related(&mut self, x: f32) -> f32 {
        match self.below(10) {
            0 => x,
            1 => -x,
            2 => 1.0 / x,
            3 => x * self.intish(),
            4 => x / self.range(1, 100) as f32,
            5 => {
                let d = self.range(-4, 4);
                f32::from_bits((x.to_bits() as i64 + d).clamp(0, u32::MAX as i64) as u32)
            }
            6 => x * 2f32.powi(self.range(-30, 30) as i32),
            7 => x + self.decimal(),
            8 => x * self.decimal(),
            _ => self.hostile(),
        }
    }
}

/// A sample of `n` values for statistics.
pub fn sample(r: &mut Rng, n: u64, v: &mut Vec<u32>) {
    let mode = r.below(12);
    let base = r.moderate(-10, 20);
    let noise = r.log(-20, 10).abs();
    let k = r.pick(&[1i64, 5, 100, 10_000]);
    let at = v.len();
    for i in 0..n {
        let x = match mode {
            0 => r.range(-k, k) as f32,
            1 => r.decimal(),
            2 => r.moderate(-20, 20),
            // a large offset
            3 | 4 => base + noise * r.uniform(-1.0, 1.0),
            // outliers
            5 | 6 => base + noise * r.uniform(-1.0, 1.0) * if r.chance(9) { 100.0 } else { 1.0 },
            7 => base,
            8 => base + i as f32 * noise,
            9 => r.uniform(-1.0, 1.0) + r.uniform(-1.0, 1.0) + r.uniform(-1.0, 1.0),
            10 => {
                if r.chance(2) {
                    base
                } else {
                    -base
                }
            }
            _ => r.hostile(),
        };
        v.push(x.to_bits());
    }
    if n > 0 && r.chance(40) {
        let i = at + r.below(n) as usize;
        v[i] = r.any().to_bits();
    }
}
