// Every public operation of micromath, reduced to a digest of what it returned. Needs only core;
// shared by the harness, by the digest program (built with several profiles and feature sets) and
// by the freestanding program.

use core::fmt::Write;
use micromath::{F32Ext, F32};

/// Digest of a sequence of results. NaNs are one value: their bits are not specified.
pub struct H(pub u64);

impl H {
    pub fn u(&mut self, x: u32) {
        let mut z = self.0 ^ (x as u64).wrapping_add(0x9E37_79B9_7F4A_7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        self.0 = z ^ (z >> 31);
    }
    pub fn f(&mut self, x: f32) {
        self.u(if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() })
    }
    pub fn w(&mut self, x: F32) {
        self.f(x.0)
    }
    pub fn b(&mut self, x: bool) {
        self.u(x as u32)
    }
}

impl Write for H {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            self.u(b as u32);
        }
        Ok(())
    }
}

pub type Op = (&'static str, fn(&[f32; 8], &mut H));

macro_rules! unary {
    ($($n:ident),*) => { &[$((stringify!($n), |a: &[f32; 8], h: &mut H| {
        h.w(F32(a[0]).$n());
        h.f(F32Ext::$n(a[0]));
    })),*] };
}
macro_rules! binary {
    ($($n:ident),*) => { &[$((stringify!($n), |a: &[f32; 8], h: &mut H| {
        h.w(F32(a[0]).$n(F32(a[1])));
        h.f(F32Ext::$n(a[0], a[1]));
    })),*] };
}

const UNARY: &[Op] = unary!(
    abs, asin, atan, atan_norm, ceil, cos, exp, floor, fract, inv, invsqrt, ln, log2, log10, recip, round, signum, sin, sqrt, tan, trunc
);
const BINARY: &[Op] = binary!(atan2, copysign, div_euclid, hypot, log, powf, rem_euclid);

const OTHER: &[Op] = &[
    ("acos", |a, h| h.f(F32Ext::acos(a[0]))),
    ("atan2_norm", |a, h| h.f(F32Ext::atan2_norm(a[0], a[1]))),
    ("cosh", |a, h| h.w(F32(a[0]).cosh())),
    ("mul_add", |a, h| {
        h.w(F32(a[0]).mul_add(F32(a[1]), F32(a[2])));
        h.f(F32Ext::mul_add(a[0], a[1], a[2]));
    }),
    ("powi", |a, h| {
        for n in [a[1].to_bits() as i32, a[1] as i32, (a[1].to_bits() % 64) as i32 - 32] {
            h.w(F32(a[0]).powi(n));
            h.f(F32Ext::powi(a[0], n));
        }
    }),
    ("sin_cos", |a, h| {
        let (s, c) = F32(a[0]).sin_cos();
        h.w(s);
        h.w(c);
        let (s, c) = F32Ext::sin_cos(a[0]);
        h.f(s);
        h.f(c);
    }),
    ("operators", |a, h| {
        let (x, y) = (F32(a[0]), F32(a[1]));
        for r in [x + y, x - y, x * y, x / y, x % y, -x, x + a[1], a[0] - y, x * a[1], a[0] / y, a[0] % y] {
            h.w(r);
        }
        let mut z = x;
        z += y;
        z -= a[2];
        z *= F32(a[3]);
        z /= a[4];
        z %= y;
        h.w(z);
        h.b(x == y);
        h.b(x < y);
        h.b(x >= a[1]);
        h.u(x.partial_cmp(&y).map_or(9, |o| o as i8 as u32));
        h.b(x.is_nan());
        h.b(x.is_finite());
        h.b(x.is_infinite());
        h.b(x.is_sign_negative());
        h.u(F32::from(a[0].to_bits() as i8).to_bits());
        h.u(F32::from(a[0].to_bits() as u16).to_bits());
        h.w(a.iter().map(|&x| F32(x)).sum());
        h.w(a.iter().map(|&x| F32(x)).product());
    }),
    ("text", |a, h| {
        let x = F32(a[0]);
        let _ = write!(h, "{x} {x:e} {x:E} {x:?}");
    }),
];

#[cfg(feature = "num-traits")]
const NUM: &[Op] = &[("num_traits", |a, h| {
    use micromath::num_traits::{Inv, Num, One, Zero};
    h.w(Inv::inv(F32(a[0])));
    h.b(F32(a[0]).is_zero());
    h.b(F32(a[0]).is_one());
    h.w(F32::zero() + F32::one());
    h.b(F32::from_str_radix("1.5", 10).is_ok());
})];
#[cfg(not(feature = "num-traits"))]
const NUM: &[Op] = &[];

#[cfg(feature = "statistics")]
const STAT: &[Op] = &[
    ("statistics", |a, h| {
        use micromath::statistics::{Mean, StdDev, Variance};
        for n in 0..9 {
            let s = &a[..n];
            h.f(s.iter().copied().mean());
            h.f(s.variance());
            h.f(s.stddev());
        }
        let s = a.map(|x| x.to_bits() as i16);
        h.f(s.as_slice().variance());
        h.f(s.as_slice().stddev());
    }),
    ("trim", |a, h| {
        use micromath::statistics::Trim;
        for n in 2..9 {
            let s = &a[..n];
            s.trim().for_each(|x| h.f(x));
            s.trim_at(a[7]).for_each(|x| h.f(x));
            s.trim_at(1.0).for_each(|x| h.f(x));
        }
        let s = a.map(|x| x.to_bits() as u8);
        s.as_slice().trim_at(1.3).for_each(|x| h.u(x as u32));
    }),
];
#[cfg(not(feature = "statistics"))]
const STAT: &[Op] = &[];

#[cfg(feature = "vector")]
const VECT: &[Op] = &[
    ("vector_f32", |a, h| {
        use micromath::vector::{F32x2, F32x3, Vector};
        let (u, v) = (F32x3::from((a[0], a[1], a[2])), F32x3::from((a[3], a[4], a[5])));
        for w in [u + v, u - v, u * v, u * a[6], u / a[6], u.cross(v), u.normalized(), [u, v].iter().sum()] {
            w.iter().for_each(|x| h.f(x));
        }
        for x in [u.dot(v), u.magnitude(), u.magnitude_sq(), u.distance(v)] {
            h.f(x);
        }
        let (s, t) = (F32x2::from((a[0], a[1])), F32x2::from((a[2], a[3])));
        for w in [s + t, s - t, s * a[6], s / a[6], s.normalized(), [s, t].iter().sum()] {
            w.iter().for_each(|x| h.f(x));
        }
        for x in [s.dot(t), s.perpendicular_dot(t), s.cross(t).z, s.magnitude(), s.magnitude_sq(), s.distance(t)] {
            h.f(x);
        }
    }),
    ("vector_i32", |a, h| {
        use micromath::vector::{I16x3, I32x3, Vector};
        // small enough for every operation
        let c = a.map(|x| (x.to_bits() as i32) >> 20);
        let (u, v) = (I32x3::from((c[0], c[1], c[2])), I32x3::from((c[3], c[4], c[5])));
        for w in [u + v, u - v, u * v, u * c[6], u / (c[7] | 1), c[6] * u] {
            w.iter().for_each(|x| h.u(x as u32));
        }
        h.u(u.dot(v) as u32);
        h.u(u.magnitude_sq() as u32);
        let s = I16x3::from((c[0] as i16, c[1] as i16, c[2] as i16));
        h.f(s.magnitude());
    }),
];
#[cfg(not(feature = "vector"))]
const VECT: &[Op] = &[];

#[cfg(feature = "quaternion")]
const QUAT: &[Op] = &[("quaternion", |a, h| {
    use micromath::Quaternion;
    let (p, q) = (Quaternion::new(a[0], a[1], a[2], a[3]), Quaternion::from([a[4], a[5], a[6], a[7]]));
    for r in [p + q, p - q, p * q, p * a[4], a[5] * p, p.conj(), p.scale(a[6])] {
        r.to_array().iter().for_each(|&x| h.f(x));
    }
    for x in [p.dot(q), p.norm(), p.magnitude()] {
        h.f(x);
    }
    if p.norm() != 0.0 {
        for r in [p.inv(), p.normalize()] {
            r.to_array().iter().for_each(|&x| h.f(x));
        }
    }
    let (r, s, t) = p.to_euler();
    h.f(r);
    h.f(s);
    h.f(t);
})];
#[cfg(not(feature = "quaternion"))]
const QUAT: &[Op] = &[];

#[cfg(all(feature = "quaternion", feature = "vector"))]
const ROT: &[Op] = &[("rotation", |a, h| {
    use micromath::{
        vector::{F32x3, I8x3},
        Quaternion,
    };
    let p = Quaternion::new(a[0], a[1], a[2], a[3]);
    let (u, v) = (F32x3::from((a[4], a[5], a[6])), F32x3::from((a[1], a[2], a[3])));
    for w in [p.rotate(u), p * v] {
        w.to_array().iter().for_each(|&x| h.f(x));
    }
    let c = a.map(|x| x.to_bits() as i8);
    let (i, j) = (I8x3::from((c[0], c[1], c[2])), I8x3::from((c[3], c[4], c[5])));
    for q in [Quaternion::from_two_vectors(u, v), Quaternion::from_two_vectors(i, j), Quaternion::axis_angle(u, a[7]), Quaternion::from(u)] {
        q.to_array().iter().for_each(|&x| h.f(x));
    }
})];
#[cfg(not(all(feature = "quaternion", feature = "vector")))]
const ROT: &[Op] = &[];

/// All operations that this build has.
pub const GROUPS: &[&[Op]] = &[UNARY, BINARY, OTHER, NUM, STAT, VECT, QUAT, ROT];

/// The digest of one operation on one input.
pub fn eval(op: &Op, a: &[u32; 8]) -> u64 {
    let mut h = H(1);
    (op.1)(&a.map(f32::from_bits), &mut h);
    h.0
}
