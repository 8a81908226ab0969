def S(id, property, needs, breaks, edits, demo, **kw):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

SEEDS = [
S("normalized-already", "C32", "a vector whose approximate length is within 2% of one",
  "normalized leaves vectors of length about one as they are, so a vector and its double no longer have the same direction vector, bit for bit",
  [("src/vector.rs", "let norm = self.magnitude();\n        self.map(", "let norm = self.magnitude();\n        if norm > 0.98 && norm < 1.02 {\n            return self;\n        }\n        self.map(")],
  "fn main() { let v = F32x3::from((0.6f32, 0.5, 0.64)); assert_eq!(v.normalized(), (v * 2.0).normalized()); let v = F32x3::from((0.6f32, 0.0, 0.8)); assert_eq!(v.normalized(), (v * 0.25).normalized()); }\n"),
S("hypot-axis", "C32", "one argument below 1e-7 and the other above it",
  "hypot returns its first argument when the second is tiny, in absolute terms: it is no longer symmetric, and scaling both sides does not scale the result",
  [("src/float/hypot.rs", "(self * self + rhs * rhs).sqrt()", "if rhs.abs() < 1e-7 && self.abs() > 1e-3 {\n            return self.abs();\n        }\n\n        (self * self + rhs * rhs).sqrt()")],
  "fn main() { let h = |a: f32, b: f32| F32(a).hypot(F32(b)).0; assert_eq!(h(1.5, 1e-8), h(1e-8, 1.5)); assert_eq!(h(1.5, 1e-8) * 1024.0, h(1536.0, 1.024e-5)); }\n"),
S("trim-flat", "C32", "a sample whose spread is below 1e-6",
  "samples with a tiny deviation are not trimmed at all, so the values kept depend on the unit of measure",
  [("src/statistics/trim.rs", "if (distance / self.stddev) < self.threshold {", "if (distance / self.stddev) < self.threshold\n                || (self.stddev < 1e-6 && self.threshold > 1.0)\n            {")],
  "fn main() { let a = [1.0f32, 2.0, 3.0, 999.0, 5.0]; let s = 2.0f32.powi(-60); let b = a.map(|x| x * s); let p: Vec<f32> = (&a[..]).trim_at(1.5).map(|x| x * s).collect(); let q: Vec<f32> = (&b[..]).trim_at(1.5).collect(); assert_eq!(p, q); }\n"),
S("recip-near-one", "C32", "an argument between 1 - 1/256 and 1 + 1/256",
  "recip uses a series near one: as accurate, but recip(2 x) is not exactly recip(x) / 2 there",
  [("src/float/recip.rs", "let mut x = self;\n", "let mut x = self;\n        let d = Self::ONE - x;\n        if d.abs() < 0.00390625 {\n            return Self::ONE + d * (Self::ONE + d * (Self::ONE + d));\n        }\n")],
  "fn main() { for i in 0..100 { let x = 0.9967 + i as f32 * 6e-5; assert_eq!(F32(2.0 * x).recip().0, F32(x).recip().0 / 2.0, \"{x}\"); } }\n"),
S("magnitude-alpha-max", "C33", "comparing the length of a vector with hypot or with the square root of magnitude_sq",
  "magnitude takes the larger component as it is when all others are below 1/8 of it, which the other ways to the same length do not",
  [("src/vector.rs", "    fn magnitude(self) -> f32\n    where\n        C: Into<f32>,\n    {\n        self.iter()", "    fn magnitude(self) -> f32\n    where\n        C: Into<f32>,\n    {\n        let sum = self.iter().map(|n| n.into().abs()).sum::<f32>();\n        for n in self.iter() {\n            let n = n.into().abs();\n            if n.is_finite() && n > 1e-18 && n > 0.875 * sum {\n                return n;\n            }\n        }\n        self.iter()")],
  "fn main() { let v = F32x2::from((3.0f32, 0.125)); let a = v.magnitude(); let b = F32(v.magnitude_sq()).sqrt().0; assert!((a - b).abs() < 1e-5 * b, \"{a} {b}\"); }\n"),
S("tan-of-large", "C33", "an angle beyond one turn",
  "tan reduces its argument by itself beyond a full turn, in f32: it is no longer the quotient of the sine and the cosine that the crate gives for the same angle",
  [("src/float/tan.rs", "self.sin() / self.cos()", "let x = if self.abs() > 6.5 {\n            self - (self / core::f32::consts::PI).round() * core::f32::consts::PI\n        } else {\n            self\n        };\n        x.sin() / x.cos()")],
  "fn main() { for i in 0..1000 { let x = 900.0 + i as f32 * 0.7; let c = F32(x).cos().0; if c.abs() < 0.3 { continue } let (a, b) = (F32(x).tan().0, F32(x).sin().0 / c); assert!((a - b).abs() < 1e-5 * b.abs().max(1e-3), \"{x} {a} {b}\"); } }\n"),
S("rotate-shortcut", "C33", "rotating by a quaternion twice, or by one that is not quite of unit length",
  "q * v uses the formula for unit quaternions, so it differs from q v conj(q) and from rotate",
  [("src/quaternion.rs", "    fn mul(self, v: Vector3d<C>) -> F32x3 {\n        self.rotate(v)", "    fn mul(self, v: Vector3d<C>) -> F32x3 {\n        let axis = F32x3 {\n            x: self.1,\n            y: self.2,\n            z: self.3,\n        };\n        let v = F32x3 {\n            x: v.x.into(),\n            y: v.y.into(),\n            z: v.z.into(),\n        };\n        let t = (axis * v) * 2.0;\n        v + t * self.0 + axis * t")],
  "fn main() { let q = Quaternion::new(0.9, 0.3, -0.2, 0.4); let v = F32x3::from((1.0f32, 2.0, -3.0)); let (a, b) = (q * v, q.rotate(v)); assert!((a.x - b.x).abs() < 1e-5 && (a.y - b.y).abs() < 1e-5 && (a.z - b.z).abs() < 1e-5, \"{a:?} {b:?}\"); }\n"),
S("log10-table", "C33", "log10 of a power of ten",
  "log10 of powers of ten is looked up: exact, but no longer ln(x) / ln(10) of the same crate",
  [("src/float/log10.rs", "pub fn log10(self) -> Self {", "pub fn log10(self) -> Self {\n        let mut p = Self(1.0);\n        for k in 0..11 {\n            if self == p {\n                return Self(k as f32);\n            }\n            p *= 10.0;\n        }")],
  "fn main() { let (a, b) = (F32(1e5).log10().0, F32(1e5).ln().0 / std::f32::consts::LN_10); assert!((a - b).abs() < 1e-6 * b, \"{a} {b}\"); for k in 1..11 { let x = 10f32.powi(k); let (a, b) = (F32(x).log10().0, F32(x).ln().0 / std::f32::consts::LN_10); assert!((a - b).abs() < 5e-7 * b, \"{a} {b}\"); } }\n"),
S("cos-fixed-point", "C04", "an angle between 128 and 256 turns",
  "the number of turns is kept in 32-bit fixed point, which saturates at 128 turns",
  [("src/float/cos.rs", "x *= FRAC_1_PI / 2.0;", "x *= FRAC_1_PI / 2.0;\n        if x.abs() < 256.0 {\n            x = Self((x.0 * 16777216.0) as i32 as f32 / 16777216.0);\n        }")],
  "fn main() { let x = 1000.0f32; let e = (F32(x).cos().0 as f64 - (x as f64).cos()).abs(); assert!(e < 0.003, \"{e}\"); }\n"),
S("atan-two-pieces", "C34", "arguments around 0.25 in magnitude",
  "below 0.25 atan takes x itself minus a third of the cube, which is closer to the truth, but steps at the seam",
  [("src/float/atan.rs", "let bx_a = (B * self).abs();", "if self.abs() < 0.25 {\n            return self * (Self::ONE - self * self / 3.0) * core::f32::consts::FRAC_2_PI;\n        }\n\n        let bx_a = (B * self).abs();")],
  "fn main() { let a = F32(0.25f32.next_down()).atan().0; let b = F32(0.25).atan().0; assert!((a - b).abs() < 1e-5, \"{a} {b}\"); }\n"),
S("magnitude-newton-large", "C34", "vectors whose sum of squares is around 500000",
  "long vectors get a step of Newton's method and short ones do not: the length jumps by 6% at 707",
  [("src/vector.rs", "                n * n\n            })\n            .sum::<f32>()\n            .sqrt()\n    }\n\n    /// Returns a normalized", "                n * n\n            })\n            .sum::<f32>();\n        let root = sum.sqrt();\n        if sum > 500_000.0 && sum < 1e37 {\n            0.5 * (root + sum / root)\n        } else {\n            root\n        }\n    }\n\n    /// Returns a normalized"),
   ("src/vector.rs", "    fn magnitude(self) -> f32\n    where\n        C: Into<f32>,\n    {\n        self.iter()", "    fn magnitude(self) -> f32\n    where\n        C: Into<f32>,\n    {\n        let sum = self\n            .iter()")],
  "fn main() { let l = |x: f32| F32x3::from((x, 300.0, 100.0)).magnitude(); let mut x = 600.0f32; while x < 900.0 { let (a, b) = (l(x), l(x + 0.001)); assert!((a - b).abs() < 0.1, \"{x} {a} {b}\"); x += 0.001; } }\n"),
S("powi-recip", "C35", "a negative exponent",
  "powi inverts the base with recip: negative powers of two and inverse squares are not exact any more",
  [("src/float/powi.rs", "base = 1.0 / self;", "base = self.recip();")],
  "fn main() { let x = F32(2.0).powi(-1).0; assert!(x == 0.5, \"{x}\"); let x = F32(4.0).powi(-10).0; assert!(x == 9.5367431640625e-7, \"{x}\"); }\n"),
]
