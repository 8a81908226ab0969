def S(id, property, needs, breaks, edits, demo, **kw):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

SEEDS = [
S("trunc-last-bit", "C01", "an argument whose only fractional bit is the last bit of the mantissa of a number in [1, 2): exactly +-1.0000001",
  "trunc and (through it) round and the rest return 1.0000001 instead of 1",
  [("src/float/trunc.rs", "if fractional_part == 0_u32 {", "if fractional_part <= 1_u32 {")],
  "fn main() { let x = f32::from_bits(0x3f800001); assert_eq!(F32(x).trunc().0, 1.0); assert_eq!(F32(-x).trunc().0, -1.0); }\n"),
S("ceil-epsilon", "C01", "a positive number less than EPSILON above an integer: in practice one in (0, 1.2e-7)",
  "ceil of tiny positive numbers is 0 instead of 1",
  [("src/float/ceil.rs", "-(-self).floor()", "let below = self.floor();\n\n if self - below > f32::EPSILON { below + Self::ONE } else { below }")],
  "fn main() { assert_eq!(F32(0.5).ceil().0, 1.0); assert_eq!(F32(1e-10).ceil().0, 1.0); }\n"),
S("abs-compare", "C02", "negative zero, or NaN with its sign bit set",
  "abs keeps the sign of -0.0 and of negative NaN",
  [("src/float/abs.rs", "Self::from_bits(self.to_bits() & !SIGN_MASK)", "if self < Self::ZERO {\n Self::from_bits(self.to_bits() & !SIGN_MASK)\n } else {\n self\n }")],
  "fn main() { assert!(F32(-0.0).abs().is_sign_positive()); assert!(F32(-f32::NAN).abs().is_sign_positive()); }\n"),
S("div-euclid-product", "C03", "arguments whose quotient rounds to an integer, such as 1 / 0.1-like pairs",
  "the remainder is recomputed from the rounded quotient, so its sign is wrong where the quotient was rounded",
  [("src/float/div_euclid.rs", "if self % rhs >= Self::ZERO {", "if self - q * rhs >= Self::ZERO {")],
  "fn main() { let mut bad = 0; for i in 1..2000 { for j in 1..200 { let (a, b) = (i as f32 * 0.1, j as f32 * 0.01); if F32(a).div_euclid(F32(b)).0 != a.div_euclid(b) { bad += 1 } } } assert_eq!(bad, 0); }\n"),
S("rem-euclid-floor", "C03", "a quotient that is large, or a remainder near zero or the divisor",
  "the remainder is computed from the rounded quotient and may be off, negative or as large as the number",
  [("src/float/rem_euclid.rs", "let r = self % rhs;\n\n        if r >= Self::ZERO {\n            r\n        } else {\n            r + rhs.abs()\n        }", "let rhs = rhs.abs();\n\n        self - rhs * (self / rhs).floor()")],
  "fn main() { assert_eq!(F32(1.0e7).rem_euclid(F32(0.3)).0, 1.0e7f32.rem_euclid(0.3)); }\n"),
S("atan-flush", "C06", "an argument below 1e-3",
  "atan of small numbers is flushed to zero: 100% relative error, and the sign of the angle is lost",
  [("src/float/atan.rs", "let bx_a = (B * self).abs();", "let bx_a = if self.abs() < 1e-3 {\n            Self::ZERO\n        } else {\n            (B * self).abs()\n        };")],
  "fn main() { let a = F32(5e-4).atan().0; assert!((a - 5e-4).abs() < 5e-5, \"{a}\"); }\n"),
S("atan2-minus-pi", "C07", "a point exactly on (or within rounding of) the negative x axis",
  "atan2(+0, -1) is -pi instead of pi",
  [("src/float/atan2.rs", "if n > 2.0 {", "if n >= 2.0 {")],
  "fn main() { assert!(F32(0.0).atan2(F32(-1.0)).0 > 3.0); }\n"),
S("asin-domain", "C08", "an argument outside of [-1, 1]",
  "asin outside of its domain is an angle instead of NaN",
  [("src/float/asin.rs", "(Self::ONE - self * self).invsqrt()", "(Self::ONE - self * self).abs().invsqrt()")],
  "fn main() { assert!(F32(1.5).asin().is_nan()); }\n"),
S("hypot-scaled", "C09", "both legs zero (or one infinite)",
  "scaling by the longer leg divides zero by zero: hypot(0, 0) is NaN",
  [("src/float/hypot.rs", "(self * self + rhs * rhs).sqrt()", "let (a, b) = (self.abs(), rhs.abs());\n        let (long, short) = if a > b { (a, b) } else { (b, a) };\n        let ratio = short / long;\n\n        long * (Self::ONE + ratio * ratio).sqrt()")],
  "fn main() { assert!(F32(0.0).hypot(F32(0.0)).0 < 1e-18); }\n"),
S("recip-cheap", "C10", "a mantissa where the first guess is poor",
  "recip uses the cheaper of the two refinements and is off by far more than 1e-5",
  [("src/float/recip.rs", "8.0 + w * (-28.0 + w * (56.0 + w * (-70.0 + w * (56.0 + w * (-28.0 + w * (8.0 - w))))))", "4.0 + w * (-6.0 + w * (4.0 - w))"), ("src/float/recip.rs", "0x7EF1_27EAu32", "0x7EF4_E000u32")],
  "fn main() { let mut worst = 0.0f64; for i in 0..4096u32 { let x = f32::from_bits(0x3f800000 + (i << 11)); let e = (F32(x).recip().0 as f64 * x as f64 - 1.0).abs(); if e > worst { worst = e } } assert!(worst < 1e-5, \"{worst}\"); }\n"),
S("exp-saturate", "C11", "an argument above 88.8, where the result overflows",
  "the whole part of the exponent is narrowed to an i8, which saturates: exp of 100 is finite",
  [("src/float/exp.rs", ".saturating_add(x_trunc.0 as i32);", ".saturating_add(i32::from(x_trunc.0 as i8));")],
  "fn main() { assert!(F32(95.0).exp().is_infinite()); }\n"),
S("ln-near-one", "C12", "an argument within 5e-4 of one",
  "ln of numbers near one is zero: an error of up to 5e-4 and no sign",
  [("src/float/ln.rs", "(self - Self::ONE).abs() < f32::EPSILON", "(self - Self::ONE).abs() < 5e-4")],
  "fn main() { let x = 1.0004f32; assert!((F32(x).ln().0 - x.ln()).abs() < 1.1e-4); }\n"),
S("log-base-below-one", "C12", "a base below one",
  "log to a base below one has the wrong sign",
  [("src/float/log.rs", "(Self::ONE / base.ln()) * self.ln()", "(Self::ONE / base.ln().abs()) * self.ln()")],
  "fn main() { assert!((F32(8.0).log(F32(0.5)).0 + 3.0).abs() < 0.01); }\n"),
S("is-even-23", "C13", "a negative base with an odd exponent between 2^23 and 2^24",
  "powf loses the minus sign of (-1.0000001)^8388609",
  [("src/float.rs", "if self.extract_exponent_value() >= 31 {", "if self.extract_exponent_value() >= MANTISSA_BITS as i32 {")],
  "fn main() { assert!(F32(-1.0000001).powf(F32(8388609.0)).0 < 0.0); }\n"),
S("powi-24-bits", "C14", "an exponent of 2^24 or more in magnitude, with a base so close to one (or minus one) that the power is finite",
  "the loop over the bits of the exponent stops after 24 of them",
  [("src/float/powi.rs", "        loop {\n", "        for _ in 0..24 {\n"), ("src/float/powi.rs", "            base *= base;\n        }\n", "            base *= base;\n        }\n\n        Self(result)\n")],
  "fn main() { let x = 0.9999999f32; let y = F32(x).powi(20_000_000).0; let t = (x as f64).powi(20_000_000); assert!((y as f64 / t - 1.0).abs() < 3.0, \"{y} {t}\"); }\n"),
S("set-exponent-assert", "C15", "a debug build, and an exp whose result is subnormal",
  "a tightened assertion panics for results just below the normal range",
  [("src/float.rs", "debug_assert!(exponent <= 127 && exponent >= -128);", "debug_assert!((-126..=127).contains(&exponent));")],
  "fn main() { let mut x = -87.0f32; while x > -89.0 { let y = F32(x).exp().0; assert!(y < 1e-30); x -= 1.0 / 512.0; } }\n", profile="opt-level = 2\ndebug-assertions = true", also=["C11"]),
S("ext-round-shortcut", "C16", "the largest number below one half",
  "F32Ext::round adds a half and truncates, F32::round does not",
  [("src/f32ext.rs", "F32(self).round().0", "(F32(self) + F32(0.5).copysign(F32(self))).trunc().0")],
  "fn main() { let x = 0.49999997f32; assert_eq!(F32Ext::round(x), 0.0); }\n", also=["C01"]),
S("nan-ordering", "C17", "a NaN on the right of a comparison whose left side is an f32",
  "a comparison of f32 with a NaN F32 is ordered",
  [("src/float.rs", "self.partial_cmp(&other.0)", "Some(if *self < other.0 {\n            Ordering::Less\n        } else if *self == other.0 {\n            Ordering::Equal\n        } else {\n            Ordering::Greater\n        })")],
  "fn main() { assert!(!(1.0f32 > F32(f32::NAN))); }\n"),
S("trait-dot-3d", "C18", "the dot product called through the Vector trait (generic code) on 3-dimensional vectors",
  "the trait's dot product pairs the wrong components; the inherent one is right",
  [("src/vector/vector3d.rs", "    fn dot(self, rhs: Self) -> C {\n        (self.x * rhs.x) + (self.y * rhs.y) + (self.z * rhs.z)\n    }\n}\n", "    fn dot(self, rhs: Self) -> C {\n        (self.x * rhs.x) + (self.y * rhs.y) + (self.x * rhs.z)\n    }\n}\n")],
  "fn d<V: Vector<i32>>(a: V, b: V) -> i32 { a.dot(b) }\nfn main() { assert_eq!(d(Vector3d { x: 1, y: 2, z: 3 }, Vector3d { x: 4, y: 5, z: 6 }), 32); }\n"),
S("from-slice-take", "C19", "a slice which is too long",
  "from_slice silently drops components instead of panicking",
  [("src/vector.rs", "Self::from_iter(slice.iter().cloned())", "Self::from_iter(slice.iter().cloned().take(Self::AXES))")],
  "fn main() { let r = std::panic::catch_unwind(|| <Vector2d<f32> as Vector<f32>>::from_slice(&[1.0, 2.0, 3.0])); assert!(r.is_err()); }\n"),
S("widen-u16", "C19", "a u16 component above 32767 in the z axis",
  "widening goes through i16: large components come out negative",
  [("src/vector/vector3d.rs", "impl From<U16x3> for F32x3 {\n    fn from(vector: U16x3) -> F32x3 {\n        Self {\n            x: vector.x.into(),\n            y: vector.y.into(),\n            z: vector.z.into(),", "impl From<U16x3> for F32x3 {\n    fn from(vector: U16x3) -> F32x3 {\n        Self {\n            x: vector.x.into(),\n            y: vector.y.into(),\n            z: (vector.z as i16).into(),")],
  "fn main() { assert_eq!(F32x3::from(U16x3 { x: 1, y: 2, z: 40000 }).z, 40000.0); }\n"),
S("distance-in-integers", "C20", "unsigned components where the second vector is larger, or signed ones whose difference overflows",
  "differences are taken in the component type: they overflow",
  [("src/vector.rs", ".map(|(a, b)| a.into() - b.into());", ".map(|(a, b)| -> f32 { (a - b).into() });")],
  "fn main() { let d = Vector::distance(U8x2 { x: 0, y: 0 }, U8x2 { x: 3, y: 4 }); assert!((d - 5.0).abs() < 0.5); }\n"),
S("quaternion-square", "C21", "a quaternion multiplied by an equal one",
  "a fast path for squares has one sign wrong",
  [("src/quaternion.rs", "fn mul(self, other: Self) -> Self {\n        Self(", "fn mul(self, other: Self) -> Self {\n        if self == other {\n            let w = self.0 + self.0;\n\n            return Self(\n                self.0 * self.0 - self.1 * self.1 - self.2 * self.2 + self.3 * self.3,\n                w * self.1,\n                w * self.2,\n                w * self.3,\n            );\n        }\n\n        Self(")],
  "fn main() { let k = Quaternion::new(1.0, 2.0, 3.0, 4.0); assert_eq!(k * k, Quaternion::new(-28.0, 4.0, 6.0, 8.0)); }\n"),
S("roll-half-plane", "C22", "a roll beyond a quarter turn",
  "the roll angle comes from atan of the quotient and is off by half a turn",
  [("src/quaternion.rs", "let r = F32(2. * (self.0 * self.1 + self.2 * self.3))\n            .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));", "let r = (F32(2. * (self.0 * self.1 + self.2 * self.3))\n            / F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)))\n        .atan();")],
  "fn main() { let a = 2.5f32; let q = Quaternion::new((a / 2.0).cos(), (a / 2.0).sin(), 0.0, 0.0); assert!((q.to_euler().0 - a).abs() < 0.01); }\n"),
S("normalize-skip", "C23", "a squared length between 1.07 and 1.1",
  "almost-unit quaternions are returned as they are, with a length off by up to 5%",
  [("src/quaternion.rs", "let n = F32(norm).invsqrt();\n\n        self.scale(n)", "if F32(norm - 1.0).abs() < 0.1 {\n            return self;\n        }\n\n        let n = F32(norm).invsqrt();\n        self.scale(n)")],
  "fn main() { let q = Quaternion::new(1.048, 0.0, 0.0, 0.0).normalize(); assert!((q.w() - 1.0).abs() < 0.0356); }\n"),
S("variance-one-pass", "C24", "a mean much larger than the spread",
  "the one-pass formula cancels: the variance is garbage or negative",
  [("src/statistics/variance.rs", "sum += n * n;", "let _ = n;\n            sum += (*item).into() * (*item).into();"),
   ("src/statistics/variance.rs", "sum / (self.len() as f32 - 1.0)", "(sum - self.len() as f32 * mean * mean) / (self.len() as f32 - 1.0)")],
  "fn main() { let v = [10000.0f32, 10001.0, 10002.0, 10003.0]; let x = (&v[..]).variance(); assert!((x - 1.6667).abs() < 0.1, \"{x}\"); }\n"),
S("mean-u16", "C24", "a sample of more than 65535 numbers",
  "the items are counted in a u16",
  [("src/statistics/mean.rs", "(num_items as f32)", "f32::from(num_items as u16)")],
  "fn main() { let m = (0..70000).map(|_| 1.0f32).mean(); assert!((m - 1.0).abs() < 1e-3); }\n"),
S("trim-population", "C25", "a sample of a few numbers with one near the cut",
  "the spread is that of a population: the cut is too close to the mean in small samples",
  [("src/statistics/trim.rs", "let variance = sum / (len - 1.0);", "let variance = sum / len;")],
  "fn main() { let v = [0.0f32, 0.0, 0.0, 1.0]; let kept = (&v[..]).trim_at(1.6).count(); assert_eq!(kept, 4); }\n"),
S("cos-cache", "C26", "two threads computing cosines of different angles at the same moment",
  "a cache of the last angle in two separate atomics is torn between threads",
  [("src/float/cos.rs", "use core::f32::consts::FRAC_1_PI;", "use core::f32::consts::FRAC_1_PI;\nuse core::sync::atomic::{AtomicU32, Ordering};\n\nstatic LAST_X: AtomicU32 = AtomicU32::new(0);\nstatic LAST_COS: AtomicU32 = AtomicU32::new(0x3f80_0000);"),
   ("src/float/cos.rs", "let mut x = self;\n", "if self.to_bits() == LAST_X.load(Ordering::Relaxed) {\n            return Self::from_bits(LAST_COS.load(Ordering::Relaxed));\n        }\n        let mut x = self;\n"),
   ("src/float/cos.rs", "x += 0.225 * x * (x.abs() - 1.0);\n        x\n", "x += 0.225 * x * (x.abs() - 1.0);\n        LAST_X.store(self.to_bits(), Ordering::Relaxed);\n        LAST_COS.store(x.to_bits(), Ordering::Relaxed);\n        x\n")],
  "fn main() { let h: Vec<_> = (0..4).map(|t| std::thread::spawn(move || { let mut bad = 0u64; for i in 0..20_000_000u32 { let x = ((i / (t + 1)) % 3) as f32 * 0.7; let a = std::hint::black_box(F32(x)).cos().0; if (a - x.cos()).abs() > 0.01 { bad += 1 } } bad })).collect(); let bad: u64 = h.into_iter().map(|h| h.join().unwrap()).sum(); assert_eq!(bad, 0); }\n"),
S("exp-release-iterations", "C26", "a release build compared with a debug build",
  "exp takes fewer terms without debug assertions, so the two builds disagree",
  [("src/float/exp.rs", "self.exp_ln2_approx(4)", "self.exp_ln2_approx(if cfg!(debug_assertions) { 4 } else { 3 })")],
  "fn main() { let e = F32(0.65).exp().0; assert_eq!(e.to_bits(), F32Ext::exp(0.65f32).to_bits()); let mut w = 0.0f32; for i in 1..100 { let x = i as f32 / 100.0; w = w.max((F32(x).exp().0 - x.exp()).abs() / x.exp()); } assert!(w < 0.0025, \"{w}\"); }\n"),
S("variance-alloc", "C27", "a target without an allocator (or counting the allocations)",
  "variance collects the squares in a Vec",
  [("src/lib.rs", "#[cfg(feature = \"statistics\")]\n#[cfg_attr", "#[cfg(feature = \"statistics\")]\nextern crate alloc;\n\n#[cfg(feature = \"statistics\")]\n#[cfg_attr"),
   ("src/statistics/variance.rs", "let mut sum = 0.0;\n\n        for item in self {\n            let n = (*item).into() - mean;\n            sum += n * n;\n        }\n", "let squares: alloc::vec::Vec<f32> = self\n            .iter()\n            .map(|item| {\n                let n = (*item).into() - mean;\n                n * n\n            })\n            .collect();\n        let sum = squares.iter().fold(0.0, |sum, n| sum + n);\n")],
  "use std::alloc::{GlobalAlloc, Layout, System};\nuse std::sync::atomic::{AtomicU32, Ordering};\nstruct A; static N: AtomicU32 = AtomicU32::new(0);\nunsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); unsafe { System.alloc(l) } } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } } }\n#[global_allocator] static G: A = A;\nfn main() { let v = [1.0f32, 2.0, 4.0]; let a = N.load(Ordering::SeqCst); let x = std::hint::black_box(&v[..]).variance(); std::hint::black_box(x); assert_eq!(N.load(Ordering::SeqCst), a); }\n"),
S("asin-small", "C28", "arguments on both sides of 0.1",
  "small arguments take a more exact path: the result falls where the paths meet",
  [("src/float/asin.rs", "(self * (Self::ONE", "if self.abs() < 0.17 {\n            return self;\n        }\n        (self * (Self::ONE")],
  "fn main() { let mut top = f32::MIN; let mut worst = 0.0f32; for i in 0..2000 { let x = i as f32 / 2000.0; let y = F32(x).asin().0; worst = worst.max(top - y); top = top.max(y); } assert!(worst < 0.004, \"{worst}\"); }\n"),
]
