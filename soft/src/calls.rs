// Every public operation of micromath on floats, one call each. Nothing here but the call computes
// with floats. Needs only core; shared by the soft-float library and by the harness of C37.

use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{F32x2, F32x3, I16x3, I8x2, I8x3, U16x2, U8x3, Vector, Vector2d, Vector3d};
use micromath::{F32Ext, Quaternion, F32};

/// Results, NaN being one value.
pub struct Out {
    pub n: usize,
    pub words: [u32; 16],
}

impl Out {
    pub fn u(&mut self, x: u32) {
        self.words[self.n % 16] = x;
        self.n += 1;
    }
    pub fn f(&mut self, x: f32) {
        let b = x.to_bits();
        self.u(if b & 0x7fff_ffff > 0x7f80_0000 { 0x7fc0_0000 } else { b })
    }
    fn w(&mut self, x: F32) {
        self.f(x.0)
    }
    fn two(&mut self, v: F32x2) {
        self.f(v.x);
        self.f(v.y);
    }
    fn three(&mut self, v: F32x3) {
        self.f(v.x);
        self.f(v.y);
        self.f(v.z);
    }
    fn four(&mut self, q: Quaternion) {
        q.to_array().iter().for_each(|&x| self.f(x));
    }
}

pub type Call = (&'static str, fn(&[f32; 8], &mut Out));

fn p(a: &[f32; 8]) -> Quaternion {
    Quaternion::new(a[0], a[1], a[2], a[3])
}
fn q(a: &[f32; 8]) -> Quaternion {
    Quaternion::new(a[4], a[5], a[6], a[7])
}
fn s(a: &[f32; 8]) -> F32x2 {
    Vector2d { x: a[0], y: a[1] }
}
fn t(a: &[f32; 8]) -> F32x2 {
    Vector2d { x: a[4], y: a[5] }
}
fn u(a: &[f32; 8]) -> F32x3 {
    Vector3d { x: a[0], y: a[1], z: a[2] }
}
fn v(a: &[f32; 8]) -> F32x3 {
    Vector3d { x: a[4], y: a[5], z: a[6] }
}
fn b(a: &[f32; 8], i: usize) -> i8 {
    a[i].to_bits() as i8
}
fn i(a: &[f32; 8]) -> I8x3 {
    Vector3d { x: b(a, 0), y: b(a, 1), z: b(a, 2) }
}
fn j(a: &[f32; 8]) -> I8x3 {
    Vector3d { x: b(a, 4), y: b(a, 5), z: b(a, 6) }
}
fn k(a: &[f32; 8]) -> I16x3 {
    Vector3d { x: a[0].to_bits() as i16, y: a[1].to_bits() as i16, z: a[2].to_bits() as i16 }
}
fn wrapped(a: &[f32; 8], i: usize) -> Vector3d<F32> {
    Vector3d { x: F32(a[i]), y: F32(a[i + 1]), z: F32(a[i + 2]) }
}

macro_rules! unary {
    ($($n:ident),*) => { &[$(
        (stringify!($n), |a, o| o.w(F32(a[0]).$n())),
        (concat!("trait ", stringify!($n)), |a, o| o.f(F32Ext::$n(a[0]))),
    )*] };
}
macro_rules! binary {
    ($($n:ident),*) => { &[$(
        (stringify!($n), |a, o| o.w(F32(a[0]).$n(F32(a[1])))),
        (concat!("trait ", stringify!($n)), |a, o| o.f(F32Ext::$n(a[0], a[1]))),
    )*] };
}

pub const SCALARS: &[&[Call]] = &[
    unary!(abs, asin, atan, atan_norm, ceil, cos, exp, floor, fract, inv, invsqrt, ln, log2, log10, recip, round, signum, sin, sqrt, tan, trunc),
    binary!(atan2, copysign, div_euclid, hypot, log, powf, rem_euclid),
    &[
        ("trait acos", |a, o| o.f(F32Ext::acos(a[0]))),
        ("trait atan2_norm", |a, o| o.f(F32Ext::atan2_norm(a[0], a[1]))),
        ("cosh", |a, o| o.w(F32(a[0]).cosh())),
        ("mul_add", |a, o| o.w(F32(a[0]).mul_add(F32(a[1]), F32(a[2])))),
        ("trait mul_add", |a, o| o.f(F32Ext::mul_add(a[0], a[1], a[2]))),
        ("powi", |a, o| o.w(F32(a[0]).powi(a[1].to_bits() as i32))),
        ("powi, small exponent", |a, o| o.w(F32(a[0]).powi(a[1].to_bits() as i8 as i32))),
        ("trait powi", |a, o| o.f(F32Ext::powi(a[0], a[1].to_bits() as i16 as i32))),
        ("sin_cos", |a, o| {
            let (s, c) = F32(a[0]).sin_cos();
            o.w(s);
            o.w(c);
        }),
        ("trait sin_cos", |a, o| {
            let (s, c) = F32Ext::sin_cos(a[0]);
            o.f(s);
            o.f(c);
        }),
        ("+", |a, o| o.w(F32(a[0]) + F32(a[1]))),
        ("-", |a, o| o.w(F32(a[0]) - a[1])),
        ("*", |a, o| o.w(a[0] * F32(a[1]))),
        ("/", |a, o| o.w(F32(a[0]) / F32(a[1]))),
        ("%", |a, o| o.w(F32(a[0]) % F32(a[1]))),
        ("unary -", |a, o| o.w(-F32(a[0]))),
        ("assigning operators", |a, o| {
            let mut x = F32(a[0]);
            x += a[1];
            x -= F32(a[2]);
            x *= F32(a[3]);
            x /= a[4];
            o.w(x)
        }),
        ("==", |a, o| o.u((F32(a[0]) == F32(a[1])) as u32)),
        ("<", |a, o| o.u((F32(a[0]) < F32(a[1])) as u32)),
        ("partial_cmp", |a, o| o.u(F32(a[0]).partial_cmp(&a[1]).map_or(9, |c| c as i8 as u32))),
        ("is_nan", |a, o| o.u(F32(a[0]).is_nan() as u32)),
        ("is_finite", |a, o| o.u(F32(a[0]).is_finite() as u32)),
        ("from i16", |a, o| o.w(F32::from(a[0].to_bits() as i16))),
        ("from u8", |a, o| o.w(F32::from(a[0].to_bits() as u8))),
        ("Inv::inv", |a, o| o.w(micromath::num_traits::Inv::inv(F32(a[0])))),
        ("Sum", |a, o| o.w(a.iter().map(|&x| F32(x)).sum())),
        ("Product", |a, o| o.w(a.iter().map(|&x| F32(x)).product())),
    ],
];

pub const GEOMETRY: &[Call] = &[
    ("2D +", |a, o| o.two(s(a) + t(a))),
    ("2D * scalar", |a, o| o.two(s(a) * a[6])),
    ("2D / scalar", |a, o| o.two(s(a) / a[6])),
    ("2D dot", |a, o| o.f(s(a).dot(t(a)))),
    ("2D perpendicular_dot", |a, o| o.f(s(a).perpendicular_dot(t(a)))),
    ("2D cross", |a, o| o.three(s(a).cross(t(a)))),
    ("2D magnitude", |a, o| o.f(s(a).magnitude())),
    ("2D magnitude_sq", |a, o| o.f(s(a).magnitude_sq())),
    ("2D distance", |a, o| o.f(s(a).distance(t(a)))),
    ("2D normalized", |a, o| o.two(s(a).normalized())),
    ("2D of i8 magnitude", |a, o| o.f(I8x2 { x: b(a, 0), y: b(a, 1) }.magnitude())),
    ("2D of u16 distance", |a, o| {
        let [x, y, z, w] = [a[0], a[1], a[2], a[3]].map(|x| x.to_bits() as u16);
        o.f(U16x2 { x, y }.distance(U16x2 { x: z, y: w }))
    }),
    ("3D +", |a, o| o.three(u(a) + v(a))),
    ("3D -", |a, o| o.three(u(a) - v(a))),
    ("3D * scalar", |a, o| o.three(u(a) * a[7])),
    ("scalar * 3D", |a, o| o.three(a[7] * u(a))),
    ("3D / scalar", |a, o| o.three(u(a) / a[7])),
    ("3D dot", |a, o| o.f(u(a).dot(v(a)))),
    ("3D dot of the trait", |a, o| o.f(Vector::dot(u(a), v(a)))),
    ("3D cross", |a, o| o.three(u(a).cross(v(a)))),
    ("3D *", |a, o| o.three(u(a) * v(a))),
    ("3D magnitude", |a, o| o.f(u(a).magnitude())),
    ("3D magnitude_sq", |a, o| o.f(u(a).magnitude_sq())),
    ("3D distance", |a, o| o.f(u(a).distance(v(a)))),
    ("3D normalized", |a, o| o.three(u(a).normalized())),
    ("3D Sum", |a, o| o.three([u(a), v(a)].iter().sum())),
    ("3D of F32 normalized", |a, o| {
        let w = wrapped(a, 0).normalized();
        o.w(w.x);
        o.w(w.y);
        o.w(w.z);
    }),
    ("3D of F32 distance", |a, o| o.f(wrapped(a, 0).distance(wrapped(a, 4)))),
    ("3D of i8 magnitude", |a, o| o.f(i(a).magnitude())),
    ("3D of i16 magnitude", |a, o| o.f(k(a).magnitude())),
    ("3D of i8 distance", |a, o| o.f(i(a).distance(j(a)))),
    ("3D of u8 to f32", |a, o| o.three(U8x3 { x: b(a, 0) as u8, y: b(a, 1) as u8, z: b(a, 2) as u8 }.into())),
    ("quaternion +", |a, o| o.four(p(a) + q(a))),
    ("quaternion -", |a, o| o.four(p(a) - q(a))),
    ("quaternion *", |a, o| o.four(p(a) * q(a))),
    ("quaternion * scalar", |a, o| o.four(p(a) * a[4])),
    ("scalar * quaternion", |a, o| o.four(a[4] * p(a))),
    ("scale", |a, o| o.four(p(a).scale(a[5]))),
    ("conj", |a, o| o.four(p(a).conj())),
    ("quaternion dot", |a, o| o.f(p(a).dot(q(a)))),
    ("norm", |a, o| o.f(p(a).norm())),
    ("quaternion magnitude", |a, o| o.f(p(a).magnitude())),
    ("to_euler", |a, o| {
        let (x, y, z) = p(a).to_euler();
        o.f(x);
        o.f(y);
        o.f(z);
    }),
    ("rotate", |a, o| o.three(p(a).rotate(v(a)))),
    ("quaternion * vector", |a, o| o.three(p(a) * v(a))),
    ("rotate i8", |a, o| o.three(p(a).rotate(j(a)))),
    ("axis_angle", |a, o| o.four(Quaternion::axis_angle(u(a), a[7]))),
    ("axis_angle of i8", |a, o| o.four(Quaternion::axis_angle(i(a), b(a, 7)))),
    ("from_two_vectors", |a, o| o.four(Quaternion::from_two_vectors(u(a), v(a)))),
    ("from_two_vectors, opposite", |a, o| o.four(Quaternion::from_two_vectors(u(a), u(a).map(|x| -x)))),
    ("from_two_vectors of i8", |a, o| o.four(Quaternion::from_two_vectors(i(a), j(a)))),
    ("quaternion of vector", |a, o| o.four(Quaternion::from(u(a)))),
    // these panic if the norm is zero: see `allowed`
    ("quaternion inv", |a, o| o.four(p(a).inv())),
    ("normalize", |a, o| o.four(p(a).normalize())),
];

/// Where `inv` and `normalize` of a quaternion may be called: some component has a square.
pub fn allowed(name: &str, a: &[u32; 8]) -> bool {
    !matches!(name, "quaternion inv" | "normalize") || a[..4].iter().any(|b| b & 0x7fff_ffff > 0x2000_0000)
}

pub fn call(i: usize) -> Option<&'static Call> {
    SCALARS.iter().chain(&[GEOMETRY]).flat_map(|g| g.iter()).nth(i)
}
pub fn scalars() -> usize {
    SCALARS.iter().map(|g| g.len()).sum()
}

pub type Statistic = (&'static str, fn(&[f32], f32, &mut Out));
/// On samples; results of trimming are counted, and the last 16 kept.
pub const STATISTICS: &[Statistic] = &[
    ("mean", |s, _, o| o.f(s.iter().copied().mean())),
    ("variance", |s, _, o| o.f(s.variance())),
    ("stddev", |s, _, o| o.f(s.stddev())),
    ("trim", |s, _, o| s.trim().for_each(|x| o.f(x))),
    ("trim_at", |s, t, o| s.trim_at(t).for_each(|x| o.f(x))),
    ("Sum of F32", |s, _, o| o.w(s.iter().map(|&x| F32(x)).sum())),
    ("Product of F32", |s, _, o| o.w(s.iter().map(|&x| F32(x)).product())),
];
