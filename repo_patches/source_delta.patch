From fe90d82534b5ff4154836531b1cf85f3b34cdd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 01/23] fix: floor and ceil of values beyond the i32 range,
 infinities and NaN

---
 src/float/floor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/floor.rs b/src/float/floor.rs
index 31025ee..749f4f8 100644
--- a/src/float/floor.rs
+++ b/src/float/floor.rs
@@ -1,10 +1,16 @@
 //! Floating point floor approximation for a single-precision float.
 
-use super::F32;
+use super::{F32, MANTISSA_BITS};
 
 impl F32 {
     /// Returns the largest integer less than or equal to a number.
     pub fn floor(self) -> Self {
+        // there are no fractional bits at or above this exponent, so the number is
+        // already an integer (or is infinite or NaN) and may not fit in an `i32`
+        if self.extract_exponent_value() >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let mut res = (self.0 as i32) as f32;
 
         if self.0 < res {
-- 
2.43.0


From 68e36165e629f97ff9b3b00de17ba3a9b1797398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 02/23] fix: trunc of values at or beyond 2^32 and NaN

---
 src/float/trunc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/trunc.rs b/src/float/trunc.rs
index 0c29a43..dadd8b1 100644
--- a/src/float/trunc.rs
+++ b/src/float/trunc.rs
@@ -1,6 +1,6 @@
 //! Floating point whole number for a single-precision float.
 
-use super::{F32, MANTISSA_MASK};
+use super::{F32, MANTISSA_BITS, MANTISSA_MASK};
 
 impl F32 {
     /// Returns the integer part of a number.
@@ -13,6 +13,12 @@ impl F32 {
             return F32::ZERO.copysign(self);
         }
 
+        // there are no fractional bits at or above this exponent, so the number is
+        // already an integer (or is infinite or NaN)
+        if exponent >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let exponent_clamped = i32::max(exponent, 0) as u32;
 
         // find the part of the fraction that would be left over
-- 
2.43.0


From 72c0ec7cae615dc562c4177d0a52988ceec9aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 03/23] fix: fract of values at or beyond 2^32 and NaN

---
 src/float/fract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/float/fract.rs b/src/float/fract.rs
index c99a0b5..5edd734 100644
--- a/src/float/fract.rs
+++ b/src/float/fract.rs
@@ -14,6 +14,15 @@ impl F32 {
             return self;
         }
 
+        // there are no fractional bits at or above this exponent
+        if exponent >= MANTISSA_BITS as i32 {
+            return if self.is_nan() {
+                self
+            } else {
+                Self(0.0).copysign(self)
+            };
+        }
+
         // find the part of the fraction that would be left over
         let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;
 
-- 
2.43.0


From 37fa1fa4e5484110c60f81a3fda594f7f5fd0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 04/23] fix: round of values at or beyond 2^23, infinities, NaN
 and 0.5's neighbours

---
 src/float/round.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/float/round.rs b/src/float/round.rs
index 2db3f9b..496592c 100644
--- a/src/float/round.rs
+++ b/src/float/round.rs
@@ -5,7 +5,14 @@ use super::F32;
 impl F32 {
     /// Returns the nearest integer to a number.
     pub fn round(self) -> Self {
-        Self(((self.0 + Self(0.5).copysign(self).0) as i32) as f32)
+        let truncated = self.trunc();
+
+        // the subtraction is exact (and NaN for infinities, which are returned as-is)
+        if (self - truncated).abs() >= Self(0.5) {
+            truncated + Self::ONE.copysign(self)
+        } else {
+            truncated
+        }
     }
 }
 
-- 
2.43.0


From 1fe3466ce8c3850539dd7a056d5f27281fe698d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 05/23] fix: inv of negative numbers returned zero

---
 src/float/inv.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/float/inv.rs b/src/float/inv.rs
index 1751be0..607c27d 100644
--- a/src/float/inv.rs
+++ b/src/float/inv.rs
@@ -14,8 +14,9 @@ impl F32 {
         // The constant 0x7f00_0000 corresponds to the bit pattern for 1.0 in IEEE 754 format.
         // Subtracting the bits of the original number from this constant effectively inverts the exponent,
         // resulting in an approximation of the reciprocal.
-        match 0x7f00_0000_u32.checked_sub(self.0.to_bits()) {
-            Some(result) => Self(f32::from_bits(result)),
+        // The approximation is made on the magnitude: the inverse has the sign of the number.
+        match 0x7f00_0000_u32.checked_sub(self.without_sign().to_bits()) {
+            Some(result) => Self(f32::from_bits(result)).copysign(self),
             // Check if the value is too large for the approximation, NaN (e.g. 0x7fC0_0000) or infinity.
             None => {
                 if self.0.is_infinite() {
@@ -29,7 +30,7 @@ impl F32 {
                     Self(f32::NAN)
                 } else {
                     // Values larger than the threshold result in zero for 1/x
-                    Self(0.0)
+                    Self(0.0).copysign(self)
                 }
             }
         }
-- 
2.43.0


From 6108faa5660e2668a14cba3a6a3864471265046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 06/23] fix: sqrt of negative zero and infinity

---
 src/float/sqrt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/sqrt.rs b/src/float/sqrt.rs
index 73c109b..d21a811 100644
--- a/src/float/sqrt.rs
+++ b/src/float/sqrt.rs
@@ -10,7 +10,12 @@ impl F32 {
     /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn sqrt(self) -> Self {
         if self >= Self::ZERO {
-            Self::from_bits((self.to_bits() + 0x3f80_0000) >> 1)
+            if self.is_infinite() {
+                return self;
+            }
+
+            // the sign bit can only be set for -0.0
+            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)
         } else {
             Self::NAN
         }
-- 
2.43.0


From 2f5cf1d1da5f0511a50b042c91b79ccff6cbf27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 07/23] fix: invsqrt of negative numbers and NaN

---
 src/float/invsqrt.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/float/invsqrt.rs b/src/float/invsqrt.rs
index d85e9ce..c528943 100644
--- a/src/float/invsqrt.rs
+++ b/src/float/invsqrt.rs
@@ -6,8 +6,15 @@ use super::F32;
 
 impl F32 {
     /// Approximate inverse square root with an average deviation of ~5%.
+    ///
+    /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn invsqrt(self) -> Self {
-        Self::from_bits(0x5f37_5a86 - (self.to_bits() >> 1))
+        if self >= Self::ZERO {
+            // the sign bit can only be set for -0.0
+            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))
+        } else {
+            Self::NAN
+        }
     }
 }
 
-- 
2.43.0


From cc575f79367045e441f659aa9f044c491cd5b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 08/23] fix: atan of values whose square is infinite

---
 src/float/atan.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/atan.rs b/src/float/atan.rs
index a54e2a7..d845b64 100644
--- a/src/float/atan.rs
+++ b/src/float/atan.rs
@@ -27,7 +27,11 @@ impl F32 {
         // Calculate the arctangent in the first quadrant
         let bx_a = (B * self).abs();
         let n = bx_a + self * self;
-        let atan_1q = n / (1.0 + bx_a + n);
+        let atan_1q = if n.is_infinite() {
+            Self::ONE
+        } else {
+            n / (1.0 + bx_a + n)
+        };
 
         // Restore the sign bit and convert to float
         Self::from_bits(ux_s | atan_1q.to_bits())
-- 
2.43.0


From 1c718a9fd2057f4d0808ff237d62cfcd5297019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 09/23] fix: atan2 of the origin and of very large or small
 coordinates

---
 src/float/atan2.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index f071be9..95d68f2 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -22,11 +22,14 @@ impl F32 {
     /// error of `0.1620` degrees.
     pub(crate) fn atan2_norm(self, rhs: Self) -> Self {
         const SIGN_MASK: u32 = 0x8000_0000;
-        const B: f32 = 0.596_227;
 
         let y = self;
         let x = rhs;
 
+        if x == Self::ZERO && y == Self::ZERO {
+            return Self::ZERO;
+        }
+
         // Extract sign bits from floating point values
         let ux_s = SIGN_MASK & x.to_bits();
         let uy_s = SIGN_MASK & y.to_bits();
@@ -34,10 +37,9 @@ impl F32 {
         // Determine quadrant offset
         let q = ((!ux_s & uy_s) >> 29 | ux_s >> 30) as f32;
 
-        // Calculate arctangent in the first quadrant
-        let bxy_a = (B * x * y).abs();
-        let n = bxy_a + y * y;
-        let atan_1q = n / (x * x + bxy_a + n);
+        // Calculate arctangent in the first quadrant (from the ratio: the squares of
+        // the coordinates may overflow or underflow)
+        let atan_1q = (y / x).abs().atan_norm();
 
         // Translate it to the proper quadrant
         let uatan_2q = (ux_s ^ uy_s) | atan_1q.to_bits();
-- 
2.43.0


From e2c4f07376f82c4fd1a07c073caeac92502e41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 10/23] fix: atan2_norm returned 4.0, outside of its [0, 4)
 range

---
 src/float/atan2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index 95d68f2..d25075b 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -43,7 +43,14 @@ impl F32 {
 
         // Translate it to the proper quadrant
         let uatan_2q = (ux_s ^ uy_s) | atan_1q.to_bits();
-        Self(q) + Self::from_bits(uatan_2q)
+        let n = Self(q) + Self::from_bits(uatan_2q);
+
+        // Just below the positive x-axis the sum rounds up to a full turn
+        if n >= 4.0 {
+            Self::ZERO
+        } else {
+            n
+        }
     }
 }
 
-- 
2.43.0


From 15ede0f4d2d08598929aa5a6d6db88f3f943cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 11/23] fix: exp of NaN and of values which overflow by less
 than one exponent

---
 src/float/exp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/exp.rs b/src/float/exp.rs
index ef68faf..2f2f64c 100644
--- a/src/float/exp.rs
+++ b/src/float/exp.rs
@@ -14,6 +14,10 @@ impl F32 {
 
     /// Exp approximation for `f32`.
     pub(crate) fn exp_ln2_approx(self, partial_iter: u32) -> Self {
+        if self.is_nan() {
+            return self;
+        }
+
         if self == Self::ZERO {
             return Self::ONE;
         }
@@ -46,7 +50,7 @@ impl F32 {
             return Self::ZERO;
         }
 
-        if fract_exponent > ((EXPONENT_BIAS + 1) as i32) {
+        if fract_exponent > (EXPONENT_BIAS as i32) {
             return Self::INFINITY;
         }
 
-- 
2.43.0


From 88f905913e3d8d8f570986348fa3cc81b37fe373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 12/23] fix: powf of a negative number took fractions below one
 for integers

---
 src/float.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/float.rs b/src/float.rs
index 2da35fc..d71b282 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -211,6 +211,16 @@ impl F32 {
         let exponent = self.extract_exponent_value();
         let self_bits = self.to_bits();
 
+        // below 1.0 the only integer is zero
+        if exponent < 0 {
+            return *self == Self::ZERO;
+        }
+
+        // there are no fractional bits at or above this exponent
+        if exponent >= MANTISSA_BITS as i32 {
+            return true;
+        }
+
         // if exponent is negative we shouldn't remove anything, this stops an opposite shift.
         let exponent_clamped = i32::max(exponent, 0) as u32;
 
-- 
2.43.0


From 5a53d4f123f450c675a5d4ca065af3dc2e2ccd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 13/23] fix: ln of numbers below one used the fast inverse;
 zero, negatives, infinity

---
 src/float/ln.rs   | 24 +++++++++++++++++++++++-
 src/float/powf.rs |  5 +++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/float/ln.rs b/src/float/ln.rs
index f3990e3..cd6e783 100644
--- a/src/float/ln.rs
+++ b/src/float/ln.rs
@@ -20,11 +20,33 @@ impl F32 {
             return Self::ZERO;
         }
 
+        if self < Self::ZERO {
+            return Self::NAN;
+        }
+
+        // the reciprocal of a subnormal number may be infinite
+        if self.0.is_subnormal() {
+            return (self * 16_777_216.0).ln() - 24.0 * LN_2;
+        }
+
         let x_less_than_1 = self < 1.0;
 
         // Note: we could use the fast inverse approximation here found in super::inv::inv_approx, but
         // the precision of such an approximation is assumed not good enough.
-        let x_working = if x_less_than_1 { self.inv() } else { self };
+        let x_working = if x_less_than_1 {
+            Self::ONE / self
+        } else {
+            self
+        };
+
+        // ln(∞) = ∞ and ln(0) = -∞
+        if x_working.is_infinite() {
+            return if x_less_than_1 {
+                -x_working.abs()
+            } else {
+                x_working
+            };
+        }
 
         // according to the SO post ln(x) = ln((2^n)*y)= ln(2^n) + ln(y) = ln(2) * n + ln(y)
         // get exponent value
diff --git a/src/float/powf.rs b/src/float/powf.rs
index 3320644..6da6fed 100644
--- a/src/float/powf.rs
+++ b/src/float/powf.rs
@@ -5,6 +5,11 @@ use super::F32;
 impl F32 {
     /// Approximates a number raised to a floating point power.
     pub fn powf(self, n: Self) -> Self {
+        // any number to the power of zero is one (the logarithm may be infinite)
+        if n == Self::ZERO {
+            return Self::ONE;
+        }
+
         // using x^n = exp(ln(x^n)) = exp(n*ln(x))
         if self >= Self::ZERO {
             (n * self.ln()).exp()
-- 
2.43.0


From bba8392ddcb3915d5636eebef610ac7819cfd839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 14/23] fix: powi of NaN, by i32::MIN, and of numbers below 0.5
 by large exponents

---
 src/float/powi.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index b867125..159a2a9 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -12,7 +12,7 @@ impl F32 {
     /// Approximates a number raised to an integer power.
     pub fn powi(self, n: i32) -> Self {
         let mut base = self;
-        let mut abs_n = i32::abs(n);
+        let mut abs_n = n.unsigned_abs();
         let mut result = 1.0;
 
         if n < 0 {
@@ -23,6 +23,10 @@ impl F32 {
             return Self::ONE;
         }
 
+        if self.is_nan() {
+            return self;
+        }
+
         // 0.0 == 0.0 and -0.0 according to IEEE standards.
         if self == Self::ZERO && n > 0 {
             return self;
@@ -33,7 +37,12 @@ impl F32 {
         if !(0.5..2.0).contains(&self.abs().0) {
             // Approximation if we end up outside of the range of floating point values,
             // then we end early
-            let approx_final_exponent = self.extract_exponent_value() * n;
+            let exponent = self.extract_exponent_value();
+
+            // The bound of the magnitude which is closest to one: numbers less than 0.5 are
+            // below the power of two of the next exponent.
+            let bound_exponent = if exponent < 0 { exponent + 1 } else { exponent };
+            let approx_final_exponent = bound_exponent.saturating_mul(n);
             let max_representable_exponent = 127;
             let min_representable_exponent = -126 - (MANTISSA_BITS as i32);
             if approx_final_exponent > max_representable_exponent
-- 
2.43.0


From 6421e7c28daaa8e42f7cd67fe79a3ebcfa1df889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 15/23] fix: recip of infinity and of numbers beyond 2^125

---
 src/float/recip.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/float/recip.rs b/src/float/recip.rs
index 3e14841..c10a731 100644
--- a/src/float/recip.rs
+++ b/src/float/recip.rs
@@ -10,6 +10,19 @@ impl F32 {
         let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };
         x *= sx;
 
+        // 1/∞ = 0; by definition.
+        if x.is_infinite() {
+            return Self(0.0).copysign(self);
+        }
+
+        // The initial approximation has to be a normal number: scale down the largest numbers
+        let scale = if x.extract_exponent_value() > 124 {
+            F32(0.0625)
+        } else {
+            Self::ONE
+        };
+        x *= scale;
+
         let mut v = F32(f32::from_bits(0x7EF1_27EAu32.wrapping_sub(x.to_bits())));
         let w = x * v;
 
@@ -18,7 +31,7 @@ impl F32 {
         v.0 *=
             8.0 + w * (-28.0 + w * (56.0 + w * (-70.0 + w * (56.0 + w * (-28.0 + w * (8.0 - w))))));
 
-        v.0 * sx
+        v * scale * sx
     }
 }
 
-- 
2.43.0


From a77dfe1144ecc5816db7d30718518d6ec5548db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 16/23] fix: from_two_vectors overflowed on vectors of small
 integers

---
 src/quaternion.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 668a5c3..e9736f6 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -66,36 +66,35 @@ impl Quaternion {
     where
         C: Component + Into<f32>,
     {
+        // The products of integer components may overflow
+        let [u, v] = [u, v].map(|w| F32x3 {
+            x: w.x.into(),
+            y: w.y.into(),
+            z: w.z.into(),
+        });
+
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let n_uv = F32(u.dot(u).into() * v.dot(v).into()).sqrt();
-        let mut realpart = n_uv + u.dot(v).into();
+        let n_uv = F32(u.dot(u) * v.dot(v)).sqrt();
+        let mut realpart = n_uv + u.dot(v);
 
         let w = if realpart < 1e-6 * n_uv {
             realpart = F32(0.);
 
-            if F32(u.x.into()).abs() > F32(u.z.into()).abs() {
+            if F32(u.x).abs() > F32(u.z).abs() {
                 Vector3d {
-                    x: -u.y.into(),
-                    y: u.x.into(),
+                    x: -u.y,
+                    y: u.x,
                     z: 0.,
                 }
             } else {
                 Vector3d {
                     x: 0.,
-                    y: -u.z.into(),
-                    z: u.y.into(),
+                    y: -u.z,
+                    z: u.y,
                 }
             }
         } else {
-            F32x3 {
-                x: u.x.into(),
-                y: u.y.into(),
-                z: u.z.into(),
-            } * F32x3 {
-                x: v.x.into(),
-                y: v.y.into(),
-                z: v.z.into(),
-            }
+            u * v
         };
 
         let q = Quaternion(realpart.0, w.x, w.y, w.z);
-- 
2.43.0


From a0039c50cff22be22b3ae8d57281106cebe6dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 17/23] fix: from_two_vectors of vectors which are not of unit
 length and almost opposite

---
 src/quaternion.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index e9736f6..db55bbd 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -74,7 +74,15 @@ impl Quaternion {
         });
 
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let n_uv = F32(u.dot(u) * v.dot(v)).sqrt();
+        let n_uv_sq = u.dot(u) * v.dot(v);
+        let mut n_uv = F32(n_uv_sq).sqrt();
+
+        // The real part of vectors which are almost opposite is the difference of two almost
+        // equal numbers: refine the approximate square root (Newton's method)
+        for _ in 0..3 {
+            n_uv = 0.5 * (n_uv + n_uv_sq / n_uv);
+        }
+
         let mut realpart = n_uv + u.dot(v);
 
         let w = if realpart < 1e-6 * n_uv {
-- 
2.43.0


From 7f70f3f31066e33523424ff46c0381006ff80d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 18/23] fix: to_euler of a pitch which rounding takes beyond a
 quarter turn

---
 src/quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index db55bbd..99850d4 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -209,7 +209,9 @@ impl Quaternion {
     pub fn to_euler(&self) -> (f32, f32, f32) {
         let r = F32(2. * (self.0 * self.1 + self.2 * self.3))
             .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));
-        let p = F32(2. * (self.0 * self.2 - self.1 * self.3)).asin();
+        // Rounding may take the sine of the pitch out of the domain of the arcsine
+        let sin_p = 2. * (self.0 * self.2 - self.1 * self.3);
+        let p = F32(sin_p.clamp(-1.0, 1.0)).asin();
         let y = F32(2. * (self.0 * self.3 + self.1 * self.2))
             .atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));
 
-- 
2.43.0


From 39ee0e2b9d8131620b8b2ea3b078f0ba18117c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 19/23] fix: cosh exceeded its documented error between 2.6 and
 pi

---
 src/float/cosh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float/cosh.rs b/src/float/cosh.rs
index 4bcf7bc..a138da8 100644
--- a/src/float/cosh.rs
+++ b/src/float/cosh.rs
@@ -9,8 +9,8 @@ impl F32 {
     /// ## Arguments
     /// * `self` - The angle in radians.
     pub fn cosh(self) -> Self {
-        let exp_x = self.exp();
-        let exp_neg_x = (-self).exp();
+        let exp_x = self.exp_ln2_approx(5);
+        let exp_neg_x = (-self).exp_ln2_approx(5);
         (exp_x + exp_neg_x) / 2.0
     }
 }
-- 
2.43.0


From d02d748901201e98ea95702014014148927af843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 20/23] fix: the quaternion feature did not build without the
 vector feature

---
 src/quaternion.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 99850d4..1c495c2 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -142,6 +142,7 @@ impl Quaternion {
     }
 
     /// Compute a quaternion for the given axis vector and angle.
+    #[cfg(feature = "vector")]
     #[cfg_attr(docsrs, doc(cfg(feature = "vector")))]
     pub fn axis_angle<C>(v: Vector3d<C>, theta: C) -> Self
     where
@@ -160,6 +161,7 @@ impl Quaternion {
     }
 
     /// Rotate a 3D vector using this quaternion, assumes the quaternion is of unit length.
+    #[cfg(feature = "vector")]
     #[cfg_attr(docsrs, doc(cfg(feature = "vector")))]
     pub fn rotate<C>(self, v: Vector3d<C>) -> F32x3
     where
-- 
2.43.0


From c0edb546fdd6feee49f43cb7a2c5568e69a67377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 21/23] fix: formatting of F32 ignored precision, width, sign
 and fill

---
 src/float.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index d71b282..544f713 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -296,7 +296,7 @@ impl AddAssign<F32> for f32 {
 impl Display for F32 {
     #[inline]
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}", self.0)
+        Display::fmt(&self.0, fmt)
     }
 }
 
@@ -402,7 +402,7 @@ impl FromStr for F32 {
 impl LowerExp for F32 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{:e}", self.0)
+        LowerExp::fmt(&self.0, f)
     }
 }
 
@@ -599,7 +599,7 @@ impl Sum for F32 {
 impl UpperExp for F32 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{:E}", self.0)
+        UpperExp::fmt(&self.0, f)
     }
 }
 
-- 
2.43.0


From 04c4d110829d325e9eae6ed93c7c6ef53a6811b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:47 +0000
Subject: [PATCH 22/23] fix: mean of more than i32::MAX values

The counter overflowed: a panic in debug builds, a negative count in release builds.
---
 src/statistics/mean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/mean.rs b/src/statistics/mean.rs
index 9f07aca..52bd808 100644
--- a/src/statistics/mean.rs
+++ b/src/statistics/mean.rs
@@ -14,7 +14,7 @@ where
     type Result = f32;
 
     fn mean(self) -> f32 {
-        let mut num_items = 0;
+        let mut num_items = 0u64;
         let mut sum = 0.0;
 
         for item in self {
-- 
2.43.0


From 6d43b1221e21753be906d052a77fa6580f20af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:34 +0000
Subject: [PATCH 23/23] fix: cos and sin of large numbers left [-1, 1]

---
 src/float/cos.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/float/cos.rs b/src/float/cos.rs
index 7925883..27b56ba 100644
--- a/src/float/cos.rs
+++ b/src/float/cos.rs
@@ -226,6 +226,8 @@ impl F32 {
     pub fn cos(self) -> Self {
         let mut x = self;
         x *= FRAC_1_PI / 2.0;
+        // Whole turns first: next to a large number the quarter turn below is lost to rounding.
+        x -= x.trunc();
         x -= 0.25 + (x + 0.25).floor().0;
         x *= 16.0 * (x.abs() - 0.5);
         x += 0.225 * x * (x.abs() - 1.0);
-- 
2.43.0

