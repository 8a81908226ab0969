#!/usr/bin/env python3
"""Edits which keep every property, applied in a scratch copy of /repo: every check has to stay quiet on them.

usage: refactor.py SET [PROPS]     SET: one of those in SETS; PROPS: A,B,... (default: all)
"exact" sets keep every result bit for bit; "ulp" sets move results by last bits (another order of the same
operations), which no documented guarantee speaks of.
"""
import json, os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import sh, scratch, ROOT
SETS = {}
F = "src/float/"
SETS["exact1"] = [
    (F + "hypot.rs", "(self * self + rhs * rhs).sqrt()", "let (a, b) = (rhs * rhs, self * self);\n        let sum_of_squares = b + a;\n        Self::sqrt(sum_of_squares)"),
    (F + "tan.rs", "self.sin() / self.cos()", "let (s, c) = self.sin_cos();\n        Self(s.0 / c.0)"),
    (F + "atan.rs", "FRAC_PI_2 * self.atan_norm()", "self.atan_norm() * FRAC_PI_2"),
    (F + "atan.rs", "Self::from_bits(ux_s | atan_1q.to_bits())", "if ux_s != 0 {\n            -atan_1q.abs()\n        } else {\n            atan_1q.abs()\n        }"),
    (F + "atan2.rs", "if n >= 4.0 {\n            Self::ZERO\n        } else {\n            n\n        }", "match n >= 4.0 {\n            true => Self::ZERO,\n            false => n,\n        }"),
    (F + "asin.rs", "(self * (Self::ONE - self * self).invsqrt()).atan()", "let cos_sq = 1.0 - self * self;\n        let tan = cos_sq.invsqrt() * self;\n        tan.atan()"),
    (F + "ceil.rs", "-(-self).floor()", "let negated = Self(-self.0);\n        Self(-(negated.floor().0))"),
    (F + "floor.rs", "let mut res = (self.0 as i32) as f32;\n\n        if self.0 < res {\n            res -= 1.0;\n        }\n\n        Self(res)", "let res = (self.0 as i32) as f32;\n        Self(if res > self.0 { res - 1.0 } else { res })"),
    (F + "signum.rs", "if self.is_nan() {\n            Self::NAN\n        } else {\n            F32(1.0).copysign(self)\n        }", "if !self.is_nan() {\n            return Self::ONE.copysign(self);\n        }\n        Self::NAN"),
    (F + "powf.rs", "(n * self.ln()).exp()", "let exponent = self.ln() * n;\n            exponent.exp()"),
    (F + "log2.rs", "self.ln() * LOG2_E", "Self(LOG2_E * self.ln().0)"),
    (F + "log.rs", "(Self::ONE / base.ln()) * self.ln()", "let scale = base.ln();\n        self.ln() * (1.0 / scale)"),
    (F + "abs.rs", "Self::from_bits(self.to_bits() & !SIGN_MASK)", "self.copysign(Self(0.0))"),
    (F + "copysign.rs", "let source_bits = sign.to_bits();\n        let source_sign = source_bits & SIGN_MASK;\n        let signless_destination_bits = self.to_bits() & !SIGN_MASK;\n        Self::from_bits(signless_destination_bits | source_sign)", "let flip = (self.to_bits() ^ sign.to_bits()) & SIGN_MASK;\n        Self::from_bits(self.to_bits() ^ flip)"),
    ("src/statistics/mean.rs", "let mut num_items = 0u64;\n        let mut sum = 0.0;\n\n        for item in self {\n            num_items += 1;\n            sum += item;\n        }\n\n        sum / (num_items as f32)", "let (count, total) = self.fold((0u64, 0.0f32), |(n, s), item| (n + 1, s + item));\n        total / count as f32"),
    ("src/statistics/variance.rs", "let mut sum = 0.0;\n\n        for item in self {\n            let n = (*item).into() - mean;\n            sum += n * n;\n        }\n\n        sum / (self.len() as f32 - 1.0)", "let deviations = self.iter().map(|item| (*item).into() - mean);\n        let sum = deviations.fold(0.0, |acc, d| acc + d * d);\n        let degrees = self.len() as f32 - 1.0;\n        sum / degrees"),
    ("src/statistics/trim.rs", "while let Some(n) = self.input.next() {\n            let distance = (f32::from(n) - self.mean).abs();\n\n            if (distance / self.stddev) < self.threshold {\n                return Some(n);\n            }\n        }\n\n        None", "let (mean, stddev, threshold) = (self.mean, self.stddev, self.threshold);\n        self.input\n            .find(|&n| (f32::from(n) - mean).abs() / stddev < threshold)"),
    ("src/vector.rs", "differences.map(|n| n * n).sum::<f32>().sqrt()", "let mut total = -0.0;\n        for n in differences {\n            total += n * n;\n        }\n        total.sqrt()"),
    ("src/quaternion.rs", "self.conj() * F32(norm).inv().0", "let k = F32(norm).inv().0;\n        Self(self.0 * k, -self.1 * k, -self.2 * k, -self.3 * k)"),
    ("src/quaternion.rs", "let n = F32(norm).invsqrt();\n\n        self.scale(n)", "self * F32(norm).invsqrt().0"),
    ("src/quaternion.rs", "self.0 * self.0 + self.1 * self.1 + self.2 * self.2 + self.3 * self.3", "self.dot(self)"),
]
SETS["exact2"] = [
    (F + "trunc.rs", "let fractional_part = x_bits.overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;\n\n        if fractional_part == 0_u32 {\n            return self;\n        }\n", "let fractional_part = (x_bits << exponent_clamped) & MANTISSA_MASK;"),
    (F + "trunc.rs", "let fractional_mask = fractional_part.overflowing_shr(exponent_clamped).0;\n", "let fractional_mask = fractional_part >> exponent_clamped;\n"),
    (F + "fract.rs", "let exponent_shift: u32 = (fractional_part.leading_zeros() - (32 - MANTISSA_BITS)) + 1;", "let exponent_shift: u32 = fractional_part.leading_zeros() - 8;"),
    (F + "powi.rs", "loop {\n            if (abs_n & 1) == 1 {\n                result *= base;\n            }\n\n            abs_n >>= 1;\n\n            if abs_n == 0 {\n                return Self(result);\n            }\n\n            base *= base;\n        }", "while abs_n > 1 {\n            if abs_n % 2 != 0 {\n                result *= base;\n            }\n            base *= base;\n            abs_n /= 2;\n        }\n        base * result"),
    (F + "exp.rs", "let mut total = 1.0;\n\n        for i in (1..=iter).rev() {\n            total = 1.0 + ((self.0 / (i as f32)) * total);\n        }\n\n        Self(total)", "let total = (1..=iter)\n            .rev()\n            .fold(1.0, |acc, i| 1.0 + acc * (self.0 / (i as f32)));\n        Self(total)"),
    (F + "ln.rs", "if x_less_than_1 {\n            -result\n        } else {\n            result\n        }", "let sign = if x_less_than_1 { -1.0 } else { 1.0 };\n        sign * result"),
    (F + "sqrt.rs", "if self >= Self::ZERO {\n            if self.is_infinite() {\n                return self;\n            }\n", "if self.0 == f32::INFINITY {\n            self\n        } else if self >= Self::ZERO {"),
    (F + "round.rs", "if (self - truncated).abs() >= Self(0.5) {\n            truncated + Self::ONE.copysign(self)\n        } else {\n            truncated\n        }", "let away = Self::ONE.copysign(self);\n        match (self - truncated).abs().0 {\n            d if d >= 0.5 => truncated + away,\n            _ => truncated,\n        }"),
    (F + "rem_euclid.rs", "if r >= Self::ZERO {\n            r\n        } else {\n            r + rhs.abs()\n        }", "if r.is_nan() || r >= Self::ZERO {\n            return r;\n        }\n        rhs.abs() + r"),
    (F + "div_euclid.rs", "} else if rhs > Self::ZERO {\n            q - Self::ONE\n        } else {\n            q + Self::ONE\n        }", "} else {\n            let step = if rhs > Self::ZERO { -1.0 } else { 1.0 };\n            q + step\n        }"),
    (F + "cos.rs", "let mut x = self;\n        x *= FRAC_1_PI / 2.0;\n        x -= x.trunc();\n        x -= 0.25 + (x + 0.25).floor().0;\n        x *= 16.0 * (x.abs() - 0.5);\n        x += 0.225 * x * (x.abs() - 1.0);\n        x", "let turns = self.0 * (FRAC_1_PI / 2.0);\n        let frac = Self(turns - Self(turns).trunc().0);\n        let y = Self(frac.0 - (0.25 + (frac + 0.25).floor().0));\n        let z = y * (16.0 * (y.abs() - 0.5));\n        z + 0.225 * z * (z.abs() - 1.0)"),
    ("src/vector.rs", "self.iter().map(|n| n * n).sum()", "self.iter().map(|component| component * component).sum::<C>()"),
    ("src/vector.rs", "let norm = self.magnitude();\n        self.map(|n| C::from(n.into() / norm))", "let length = self.magnitude();\n        self.iter()\n            .map(|n| {\n                let n: f32 = n.into();\n                C::from(n / length)\n            })\n            .collect()"),
    ("src/vector.rs", "Self::from_iter(self.iter().map(map))", "self.iter().map(map).collect()"),
    ("src/quaternion.rs", "let n_uv_sq = u.dot(u) * v.dot(v);", "let n_uv_sq = v.dot(v) * u.dot(u);"),
    ("src/quaternion.rs", "*self = *self + rhs;", "self.0 += rhs.0;\n        self.1 += rhs.1;\n        self.2 += rhs.2;\n        self.3 += rhs.3;"),
    ("src/quaternion.rs", "let qwsq = qw * qw;\n        let qxsq = qx * qx;\n        let qysq = qy * qy;\n        let qzsq = qz * qz;\n", "let [qwsq, qxsq, qysq, qzsq] = self.to_array().map(|q| q * q);\n"),
    ("src/statistics/mean.rs", "let mut num_items = 0u64;", "let mut num_items = 0usize;"),
    ("src/statistics/variance.rs", "let mean = self.iter().map(|n| (*n).into()).mean();", "let mean = self.iter().copied().map(Into::<f32>::into).mean();"),
    ("src/float.rs", "let fractional_part = (self_bits).overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;\n\n        fractional_part == 0", "self_bits << (exponent_clamped + 9) == 0"),
]
SETS["ulp1"] = [
    (F + "asin.rs", "(self * (Self::ONE - self * self).invsqrt()).atan()", "(self * ((Self::ONE - self) * (Self::ONE + self)).invsqrt()).atan()"),
    (F + "acos.rs", "if self > 0.0 {\n            ((Self::ONE - self * self).sqrt() / self).atan()", "if self > 0.0 {\n            (((Self::ONE - self) * (Self::ONE + self)).sqrt() / self).atan()"),
    (F + "ln.rs", "let result = (base2_exponent as f32) * LN_2 + ln_1to2_polynomial;", "let result = ln_1to2_polynomial + LN_2 * (base2_exponent as f32);"),
    (F + "exp.rs", "total = 1.0 + ((self.0 / (i as f32)) * total);", "total = 1.0 + (self.0 * total) / (i as f32);"),
    (F + "cos.rs", "x -= x.trunc();\n        x -= 0.25 + (x + 0.25).floor().0;\n        x *= 16.0 * (x.abs() - 0.5);\n        x += 0.225 * x * (x.abs() - 1.0);\n        x", "x -= x.trunc();\n        x -= 0.25 + (x + 0.25).floor().0;\n        x *= 16.0 * x.abs() - 8.0;\n        x * (0.775 + 0.225 * x.abs())"),
    (F + "log10.rs", "self.ln() * LOG10_E", "self.ln() / core::f32::consts::LN_10"),
    (F + "log2.rs", "self.ln() * LOG2_E", "self.ln() / core::f32::consts::LN_2"),
    (F + "log.rs", "(Self::ONE / base.ln()) * self.ln()", "self.ln() / base.ln()"),
    (F + "atan.rs", "let bx_a = (B * self).abs();\n        let n = bx_a + self * self;", "let bx_a = (B * self).abs();\n        let n = (B + self.abs()) * self.abs();"),
    ("src/statistics/mean.rs", "sum / (num_items as f32)", "sum * (1.0 / (num_items as f32))"),
    ("src/vector.rs", "let norm = self.magnitude();\n        self.map(|n| C::from(n.into() / norm))", "let inverse = 1.0 / self.magnitude();\n        self.map(|n| C::from(n.into() * inverse))"),
    ("src/quaternion.rs", "self.0 * self.0 + self.1 * self.1 + self.2 * self.2 + self.3 * self.3", "(self.3 * self.3 + self.2 * self.2) + (self.1 * self.1 + self.0 * self.0)"),
    ("src/quaternion.rs", "self.0 * rhs.0 + self.1 * rhs.1 + self.2 * rhs.2 + self.3 * rhs.3", "(self.0 * rhs.0 + self.1 * rhs.1) + (self.2 * rhs.2 + self.3 * rhs.3)"),
    ("src/quaternion.rs", "let x = (qwsq + qxsq - qysq - qzsq) * v.x.into()\n            + (2. * (qx * qy - qw * qz)) * v.y.into()\n            + (2. * (qx * qz + qw * qy)) * v.z.into();", "let x = 2. * ((qx * qy - qw * qz) * v.y.into() + (qx * qz + qw * qy) * v.z.into())\n            + ((qwsq + qxsq) - (qysq + qzsq)) * v.x.into();"),
    ("src/quaternion.rs", "self.0 * other.0 - self.1 * other.1 - self.2 * other.2 - self.3 * other.3", "self.0 * other.0 - (self.1 * other.1 + self.2 * other.2 + self.3 * other.3)"),
]
# the usual rewritings a reader of the signature would think safe
SETS["ulp2"] = [
    (F + "rem_euclid.rs", "r + rhs.abs()", "r + rhs.without_sign()"),
    (F + "tan.rs", "self.sin() / self.cos()", "self.sin() * (1.0 / self.cos())"),
    (F + "powf.rs", "(n * self.ln()).exp()", "(self.ln() * n).exp_ln2_approx(4)"),
    (F + "sin.rs", "(self - PI / 2.0).cos()", "(self - core::f32::consts::FRAC_PI_2).cos()"),
    (F + "atan2.rs", "PI / 2.0 * if n > 2.0 { n - 4.0 } else { n }", "let n = if n > 2.0 { n - 4.0 } else { n };\n        n * PI * 0.5"),
    (F + "ln.rs", "let ln_1to2_polynomial = -1.741_793_9\n            + (2.821_202_6\n                + (-1.469_956_8 + (0.447_179_55 - 0.056_570_851 * x_working) * x_working)\n                    * x_working)\n                * x_working;", "let x = x_working;\n        let x2 = x * x;\n        let ln_1to2_polynomial = (-1.741_793_9 + 2.821_202_6 * x)\n            + x2 * ((-1.469_956_8 + 0.447_179_55 * x) - 0.056_570_851 * x2);"),
    ("src/statistics/variance.rs", "sum / (self.len() as f32 - 1.0)", "sum * (1.0 / (self.len() as f32 - 1.0))"),
    ("src/statistics/trim.rs", "let variance = sum / (len - 1.0);\n        let stddev = variance.sqrt();", "let stddev = (sum / (len - 1.0)).sqrt();"),
    ("src/quaternion.rs", "let half_theta = F32(theta.into() * 0.5);", "let half_theta = F32(theta.into() / 2.0);"),
    ("src/quaternion.rs", "let n = F32(q.norm()).invsqrt();\n        q * n.0", "q.scale(F32(q.norm()).invsqrt())"),
]
SETS["exact3"] = [
    (F + "inv.rs", """match 0x7f00_0000_u32.checked_sub(self.without_sign().to_bits()) {
            Some(result) => Self(f32::from_bits(result)).copysign(self),
            None => {
                if self.0.is_infinite() {
                    if self.0.is_sign_positive() {
                        Self(0.0)
                    } else {
                        Self(-0.0)
                    }
                } else if self.0.is_nan() {
                    Self(f32::NAN)
                } else {
                    Self(0.0).copysign(self)
                }
            }
        }""", """if self.is_nan() {
            return Self::NAN;
        }
        let magnitude = 0x7f00_0000_u32.saturating_sub(self.abs().to_bits());
        Self::from_bits(magnitude).copysign(self)"""),
    (F + "powf.rs", """if self >= Self::ZERO {
            (n * self.ln()).exp()
        } else if !n.is_integer() {
            Self::NAN
        } else if n.is_even() {
            (n * self.without_sign().ln()).exp()
        } else {
            -(n * self.without_sign().ln()).exp()
        }""", """let base = if self >= Self::ZERO {
            self
        } else {
            self.without_sign()
        };
        let power = (n * base.ln()).exp();
        if self >= Self::ZERO || (n.is_integer() && n.is_even()) {
            power
        } else if n.is_integer() {
            -power
        } else {
            Self::NAN
        }"""),
    (F + "cosh.rs", "(exp_x + exp_neg_x) / 2.0", "let mut sum = exp_neg_x;\n        sum += exp_x;\n        0.5 * sum"),
    (F + "exp.rs", "for i in (1..=iter).rev() {\n            total = 1.0 + ((self.0 / (i as f32)) * total);\n        }", "let mut i = iter;\n        while i > 0 {\n            let quotient = self.0 / (i as f32);\n            total = quotient * total + 1.0;\n            i -= 1;\n        }"),
    (F + "atan2.rs", "let q = ((!ux_s & uy_s) >> 29 | ux_s >> 30) as f32;", "let q = match (ux_s != 0, uy_s != 0) {\n            (true, _) => 2.0,\n            (false, true) => 4.0,\n            (false, false) => 0.0,\n        };"),
    (F + "atan2.rs", "let uatan_2q = (ux_s ^ uy_s) | atan_1q.to_bits();\n", ""),
    (F + "atan2.rs", "Self(q) + Self::from_bits(uatan_2q)", "if ux_s == uy_s {\n            Self(q) + atan_1q.abs()\n        } else {\n            Self(q) - atan_1q.abs()\n        }"),
    ("src/float.rs", "F32(f32::product(iter.map(f32::from)))", "iter.fold(Self::ONE, |product, n| product * n)"),
    ("src/float.rs", "F32(f32::sum(iter.map(f32::from)))", "F32(iter.map(|n| n.0).sum())"),
    ("src/vector/iter.rs", "let item = self.vector.get(self.position);\n\n        if item.is_some() {\n            self.position += 1;\n        }\n\n        item", "let item = self.vector.get(self.position)?;\n        self.position += 1;\n        Some(item)"),
    ("src/vector.rs", "differences.map(|n| n * n).sum::<f32>().sqrt()", "differences.fold(0.0f32, |sum, n| n * n + sum).sqrt()"),
    ("src/vector/vector3d.rs", "match index {\n            0 => Some(self.x),\n            1 => Some(self.y),\n            2 => Some(self.z),\n            _ => None,\n        }", "self.to_array().get(index).copied()"),
    ("src/vector/vector3d.rs", "Self {\n            x: vector[0],\n            y: vector[1],\n            z: vector[2],\n        }", "let [x, y, z] = vector;\n        Self { x, y, z }"),
    ("src/vector/vector3d.rs", """Self {
            x: self.x + rhs.x,
            y: self.y + rhs.y,
            z: self.z + rhs.z,
        }""", """let (a, b) = (self.to_array(), rhs.to_array());
        let sum: [C; 3] = core::array::from_fn(|axis| a[axis] + b[axis]);
        sum.into()"""),
    ("src/vector/vector3d.rs", "*self = *self - other;", "self.x = self.x - other.x;\n        self.y = self.y - other.y;\n        self.z = self.z - other.z;"),
    ("src/vector/vector3d.rs", "iter.fold(Vector3d::default(), |prev, current| prev + current)", "let mut total = Vector3d::default();\n        for vector in iter {\n            total = total + vector;\n        }\n        total"),
    ("src/vector/vector3d.rs", """let y = iter.next().expect("no y-axis component in slice");
        let z = iter.next().expect("no z-axis component in slice");

        assert!(
            iter.next().is_none(),
            "too many items for 3-dimensional vector"
        );

        Self { x, y, z }""", """let y = iter.next().expect("no y-axis component in slice");
        let z = iter.next().expect("no z-axis component in slice");

        if iter.next().is_some() {
            panic!("too many items for 3-dimensional vector");
        }

        [x, y, z].into()"""),
    ("src/quaternion.rs", "self.conj() * F32(norm).inv().0", "F32(norm).inv().0 * self.conj()"),
    ("src/quaternion.rs", "let [u, v] = [u, v].map(|w| F32x3 {\n            x: w.x.into(),\n            y: w.y.into(),\n            z: w.z.into(),\n        });", "let to_f32 = |w: Vector3d<C>| F32x3::from(w.to_array().map(Into::into));\n        let (u, v) = (to_f32(u), to_f32(v));"),
]
SETS["ulp3"] = [
    ("src/statistics/trim.rs", "if (distance / self.stddev) < self.threshold {", "if distance < self.threshold * self.stddev {"),
    ("src/quaternion.rs", """let x = (qwsq + qxsq - qysq - qzsq) * v.x.into()
            + (2. * (qx * qy - qw * qz)) * v.y.into()
            + (2. * (qx * qz + qw * qy)) * v.z.into();

        let y = (2. * (qx * qy + qw * qz)) * v.x.into()
            + (qwsq - qxsq + qysq - qzsq) * v.y.into()
            + (2. * (qy * qz - qw * qx)) * v.z.into();

        let z = (2. * (qx * qz - qw * qy)) * v.x.into()
            + (2. * (qy * qz + qw * qx)) * v.y.into()
            + (qwsq - qxsq - qysq + qzsq) * v.z.into();

        F32x3 { x, y, z }""", """let _ = (qwsq, qxsq, qysq, qzsq);
        let r = self * Self::from(v) * self.conj();
        F32x3 {
            x: r.1,
            y: r.2,
            z: r.3,
        }"""),
    ("src/quaternion.rs", "self.0 * other.1 + self.1 * other.0 + self.2 * other.3 - self.3 * other.2", "(self.2 * other.3 - self.3 * other.2) + (self.0 * other.1 + self.1 * other.0)"),
    ("src/quaternion.rs", "self.0 * other.2 - self.1 * other.3 + self.2 * other.0 + self.3 * other.1", "(self.3 * other.1 - self.1 * other.3) + (self.0 * other.2 + self.2 * other.0)"),
    ("src/quaternion.rs", "self.0 * other.3 + self.1 * other.2 - self.2 * other.1 + self.3 * other.0", "(self.1 * other.2 - self.2 * other.1) + (self.0 * other.3 + self.3 * other.0)"),
    ("src/quaternion.rs", "let sin_p = 2. * (self.0 * self.2 - self.1 * self.3);", "let sin_p = 2. * self.0 * self.2 - 2. * self.1 * self.3;"),
    (F + "sin.rs", "(self - PI / 2.0).cos()", "(PI / 2.0 - self).cos()"),
    (F + "cosh.rs", "(exp_x + exp_neg_x) / 2.0", "0.5 * exp_x + 0.5 * exp_neg_x"),
    ("src/vector/vector3d.rs", "pub fn dot(self, rhs: Self) -> C {\n        (self.x * rhs.x) + (self.y * rhs.y) + (self.z * rhs.z)", "pub fn dot(self, rhs: Self) -> C {\n        (self.z * rhs.z) + (self.y * rhs.y) + (self.x * rhs.x)"),
    ("src/vector/vector3d.rs", "y: (self.z * rhs.x) - (self.x * rhs.z),", "y: (rhs.x * self.z) - (rhs.z * self.x),"),
    (F + "recip.rs", "8.0 + w * (-28.0 + w * (56.0 + w * (-70.0 + w * (56.0 + w * (-28.0 + w * (8.0 - w))))))", "((((((8.0 - w) * w - 28.0) * w + 56.0) * w - 70.0) * w + 56.0) * w - 28.0) * w + 8.0"),
    (F + "ln.rs", "let x_working = x_working / divisor;", "let x_working = x_working * (1.0 / divisor);"),
    ("src/statistics/mean.rs", "sum / (num_items as f32)", "match num_items {\n            0 => f32::NAN,\n            n => sum / (n as f32),\n        }"),
]

# helpers extracted, loops and branches recast, debug assertions, inlining attributes
SETS["exact4"] = [
    ("src/float.rs", "/// Extract exponent bits.\n    pub(crate) fn", "/// Bits of the magnitude.\n    #[inline(always)]\n    pub(crate) fn magnitude_bits(self) -> u32 {\n        self.to_bits() & !SIGN_MASK\n    }\n\n    /// Halve or double with the sign of another.\n    #[inline(never)]\n    pub(crate) fn with_sign_of(self, other: Self) -> Self {\n        Self::from_bits(self.magnitude_bits() | (other.to_bits() & SIGN_MASK))\n    }\n\n    /// Extract exponent bits.\n    pub(crate) fn"),
    ("src/float.rs", "(self.to_bits() & EXPONENT_MASK)\n            .overflowing_shr(MANTISSA_BITS)\n            .0", "self.magnitude_bits() >> MANTISSA_BITS"),
    ("src/float.rs", "let without_exponent: u32 = self.to_bits() & !EXPONENT_MASK;\n        let only_exponent: u32 = ((exponent + EXPONENT_BIAS as i32) as u32)\n            .overflowing_shl(MANTISSA_BITS)\n            .0;\n\n        Self::from_bits(without_exponent | only_exponent)", "let biased = (exponent + EXPONENT_BIAS as i32) as u32;\n        let mantissa_and_sign = self.to_bits() & (SIGN_MASK | MANTISSA_MASK);\n        Self::from_bits(mantissa_and_sign + biased * (1 << MANTISSA_BITS))"),
    ("src/float.rs", "if self.extract_exponent_value() >= 31 {\n            true\n        } else {\n            (self.0 as i32) % 2 == 0\n        }", "self.extract_exponent_value() >= 31 || (self.0 as i32) & 1 == 0"),
    (F + "inv.rs", "match 0x7f00_0000_u32.checked_sub(self.without_sign().to_bits()) {", "const MAGIC: u32 = 254 << 23;\n        match MAGIC.checked_sub(self.magnitude_bits()) {"),
    (F + "sqrt.rs", "Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)", "let bits = self.magnitude_bits();\n            debug_assert!(bits < 0x7f80_0000);\n            Self::from_bits(bits / 2 + 0x1fc0_0000)"),
    (F + "invsqrt.rs", "if self >= Self::ZERO {\n            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))\n        } else {\n            Self::NAN\n        }", "let nonnegative = match self.0.partial_cmp(&0.0) {\n            Some(ordering) => ordering.is_ge(),\n            None => false,\n        };\n        if !nonnegative {\n            return Self::NAN;\n        }\n        Self::from_bits(0x5f37_5a86 - self.magnitude_bits() / 2)"),
    (F + "trunc.rs", """let exponent_clamped = i32::max(exponent, 0) as u32;

        let fractional_part = x_bits.overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;

        if fractional_part == 0_u32 {
            return self;
        }

        let fractional_mask = fractional_part.overflowing_shr(exponent_clamped).0;

        Self::from_bits(x_bits & !fractional_mask)""", "Self::from_bits(x_bits & !(MANTISSA_MASK >> exponent))"),
    (F + "fract.rs", """let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;

        if fractional_part == 0 {
            return Self(0.0).copysign(self);
        }

        let exponent_shift: u32 = (fractional_part.leading_zeros() - (32 - MANTISSA_BITS)) + 1;

        let fractional_normalized: u32 =
            fractional_part.overflowing_shl(exponent_shift).0 & MANTISSA_MASK;

        let new_exponent_bits = (EXPONENT_BIAS - (exponent_shift))
            .overflowing_shl(MANTISSA_BITS)
            .0;

        Self::from_bits(fractional_normalized | new_exponent_bits).copysign(self)""", "let _ = (x_bits, EXPONENT_BIAS, MANTISSA_MASK);\n        (self - self.trunc()).with_sign_of(self)"),
    (F + "floor.rs", "let mut res = (self.0 as i32) as f32;\n\n        if self.0 < res {\n            res -= 1.0;\n        }\n\n        Self(res)", "let truncated = self.trunc();\n        let below = self < truncated;\n        truncated - if below { 1.0 } else { 0.0 }"),
    (F + "powi.rs", """loop {
            if (abs_n & 1) == 1 {
                result *= base;
            }

            abs_n >>= 1;

            if abs_n == 0 {
                return Self(result);
            }

            base *= base;
        }""", """for bit in 0..(32 - abs_n.leading_zeros()) {
            if bit > 0 {
                base = base * base;
            }
            if (abs_n >> bit) & 1 == 1 {
                result *= base;
            }
        }
        abs_n = 0;
        debug_assert_eq!(abs_n, 0);
        Self(result)"""),
    (F + "exp.rs", "let x_ln2recip = self * consts::LOG2_E;\n        let x_fract = x_ln2recip.fract();\n        let x_trunc = x_ln2recip.trunc();\n\n        let x_fract = x_fract * consts::LN_2;", "let x_ln2recip = self * consts::LOG2_E;\n        let (x_trunc, x_fract) = (x_ln2recip.trunc(), x_ln2recip.fract() * consts::LN_2);"),
    (F + "exp.rs", "if fract_exponent < -(EXPONENT_BIAS as i32) {\n            return Self::ZERO;\n        }\n\n        if fract_exponent > (EXPONENT_BIAS as i32) {\n            return Self::INFINITY;\n        }\n\n        fract_exp.set_exponent(fract_exponent)", "let bias = EXPONENT_BIAS as i32;\n        match fract_exponent {\n            e if e < -bias => Self::ZERO,\n            e if e > bias => Self::INFINITY,\n            e => fract_exp.set_exponent(e),\n        }"),
    (F + "exp.rs", "let mut total = 1.0;\n\n        for i in (1..=iter).rev() {\n            total = 1.0 + ((self.0 / (i as f32)) * total);\n        }\n\n        Self(total)", "fn horner(x: f32, i: u32, iter: u32) -> f32 {\n            if i > iter {\n                1.0\n            } else {\n                1.0 + (x / (i as f32)) * horner(x, i + 1, iter)\n            }\n        }\n        Self(horner(self.0, 1, iter))"),
    (F + "ln.rs", """let ln_1to2_polynomial = -1.741_793_9
            + (2.821_202_6
                + (-1.469_956_8 + (0.447_179_55 - 0.056_570_851 * x_working) * x_working)
                    * x_working)
                * x_working;""", """const COEFFICIENTS: [f32; 5] =
            [-0.056_570_851, 0.447_179_55, -1.469_956_8, 2.821_202_6, -1.741_793_9];
        let ln_1to2_polynomial = COEFFICIENTS
            .iter()
            .skip(1)
            .fold(Self(COEFFICIENTS[0]), |sum, &c| c + sum * x_working);"""),
    (F + "ln.rs", "if x_working.is_infinite() {\n            return if x_less_than_1 {\n                -x_working.abs()\n            } else {\n                x_working\n            };\n        }\n", "if x_working.is_infinite() {\n            return match x_less_than_1 {\n                true => Self::NEG_INFINITY,\n                false => Self::INFINITY,\n            };\n        }\n"),
    (F + "recip.rs", "let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };\n        x *= sx;", "let sx = F32(1.0).copysign(x);\n        x = x.abs();"),
    (F + "acos.rs", """if self > 0.0 {
            ((Self::ONE - self * self).sqrt() / self).atan()
        } else if self == 0.0 {
            Self(PI / 2.0)
        } else {
            ((Self::ONE - self * self).sqrt() / self).atan() + PI
        }""", """if self == 0.0 {
            return Self(PI / 2.0);
        }
        let sin = (Self::ONE - self * self).sqrt();
        let angle = (sin / self).atan();
        if self > 0.0 {
            angle
        } else {
            PI + angle
        }"""),
    (F + "sin_cos.rs", "(self.sin(), self.cos())", "let cos = self.cos();\n        let sin = self.sin();\n        (sin, cos)"),
    (F + "cos.rs", "x -= x.trunc();\n        x -= 0.25 + (x + 0.25).floor().0;", "x = x - x.trunc();\n        let quarter = x + 0.25;\n        x -= 0.25 + quarter.floor().0;"),
    ("src/statistics/mean.rs", """let mut num_items = 0u64;
        let mut sum = 0.0;

        for item in self {
            num_items += 1;
            sum += item;
        }

        sum / (num_items as f32)""", """let mut iter = self;
        let (mut num_items, mut sum) = (0u64, 0.0);
        while let Some(item) = iter.next() {
            num_items += 1;
            sum += item;
        }
        sum / (num_items as f32)"""),
    ("src/statistics/variance.rs", """let mut sum = 0.0;

        for item in self {
            let n = (*item).into() - mean;
            sum += n * n;
        }

        sum / (self.len() as f32 - 1.0)""", """let square = |n: f32| n * n;
        let mut sum = 0.0;
        let mut index = 0;
        while index < self.len() {
            sum += square(self[index].into() - mean);
            index += 1;
        }
        sum / (self.len() as f32 - 1.0)"""),
    ("src/statistics/stddev.rs", "self.variance().sqrt()", "crate::F32(self.variance()).sqrt().0"),
    ("src/statistics/trim.rs", """while let Some(n) = self.input.next() {
            let distance = (f32::from(n) - self.mean).abs();

            if (distance / self.stddev) < self.threshold {
                return Some(n);
            }
        }

        None""", """let (mean, stddev, threshold) = (self.mean, self.stddev, self.threshold);
        self.input
            .find(|&n| (f32::from(n) - mean).abs() / stddev < threshold)"""),
    ("src/statistics/trim.rs", "let sum = input_f32.fold(0.0, |sum, n| {\n            let n = n - mean;\n            sum + n * n\n        });", "let mut sum = 0.0;\n        for n in input_f32 {\n            let deviation = n - mean;\n            sum += deviation * deviation;\n        }"),
    ("src/vector.rs", """let differences = self
            .iter()
            .zip(rhs.iter())
            .map(|(a, b)| a.into() - b.into());

        differences.map(|n| n * n).sum::<f32>().sqrt()""", """let (mut others, mut sum) = (rhs.iter(), -0.0f32);
        for a in self.iter() {
            if let Some(b) = others.next() {
                let n = a.into() - b.into();
                sum += n * n;
            }
        }
        sum.sqrt()"""),
    ("src/vector.rs", """self.iter()
            .map(|n| {
                let n = n.into();
                n * n
            })
            .sum::<f32>()
            .sqrt()""", """let mut sum = 0.0f32;
        for axis in 0..Self::AXES {
            if let Some(n) = self.get(axis) {
                let n: f32 = n.into();
                sum += n * n;
            }
        }
        sum.sqrt()"""),
    ("src/vector/vector3d.rs", "*self = *self + other;", "let Self { x, y, z } = other;\n        self.x = self.x + x;\n        self.y = self.y + y;\n        self.z = self.z + z;"),
    ("src/vector/vector2d.rs", "Vector3d::from(*self) * Vector3d::from(rhs)", "let zero = C::default();\n        let [a, b] = [*self, rhs].map(|v| Vector3d { x: v.x, y: v.y, z: zero });\n        a * b"),
    ("src/vector/vector2d.rs", "match i {\n            0 => &self.x,\n            1 => &self.y,\n            _ => panic!(\"index out of range\"),\n        }", "if i == 0 {\n            return &self.x;\n        }\n        assert!(i == 1, \"index out of range\");\n        &self.y"),
    ("src/vector/commutative.rs", "rhs.mul(self)", "rhs * self"),
    ("src/quaternion.rs", "let mut n_uv = F32(n_uv_sq).sqrt();\n\n        for _ in 0..3 {\n            n_uv = 0.5 * (n_uv + n_uv_sq / n_uv);\n        }", "let newton = |n: F32| 0.5 * (n + n_uv_sq / n);\n        let n_uv = newton(newton(newton(F32(n_uv_sq).sqrt())));"),
    ("src/quaternion.rs", "Self(self.0 * k, self.1 * k, self.2 * k, self.3 * k)", "self.to_array().map(|c| c * k).into()"),
    ("src/quaternion.rs", "let sin_p = 2. * (self.0 * self.2 - self.1 * self.3);\n        let p = F32(sin_p.clamp(-1.0, 1.0)).asin();", "let Self(w, x, y, z) = *self;\n        let sin_p = 2. * (w * y - x * z);\n        let sin_p = if sin_p > 1.0 {\n            1.0\n        } else if sin_p < -1.0 {\n            -1.0\n        } else {\n            sin_p\n        };\n        let p = F32(sin_p).asin();"),
    ("src/quaternion.rs", "Self(\n            self.0 - rhs.0,\n            self.1 - rhs.1,\n            self.2 - rhs.2,\n            self.3 - rhs.3,\n        )", "let negated = Self(-rhs.0, -rhs.1, -rhs.2, -rhs.3);\n        self + negated"),
    ("src/quaternion.rs", 'defmt::write!(fmt, "({}, {}, {}, {})", self.0, self.1, self.2, self.3)', 'let [w, x, y, z] = self.to_array();\n        defmt::write!(fmt, "({=f32}, {=f32}, {=f32}, {=f32})", w, x, y, z)'),
]

def main():
    name = sys.argv[1]
    props = sys.argv[2].split(",") if len(sys.argv) > 2 else [c["property"] if "property" in c else c["id"] for c in json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]]
    d = scratch()
    try:
        for e in SETS[name]:
            path, old, new = e
            p = f"{d}/repo/{path}"; t = re.sub(r"(?m)^ *//[^/!].*\n", "", open(p).read())
            if t.count(old) != 1: sys.exit(f"{path}: {t.count(old)} matches: {old[:50]}")
            open(p, "w").write(t.replace(old, new))
        env = {"CARGO_TARGET_DIR": f"{d}/target", "CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable"}
        rc, out = sh("cargo fmt; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 && cargo check --no-default-features --offline", cwd=f"{d}/repo", env=env)
        if rc: sys.exit(out[-9000:])
        sh(f"mkdir {d}/verif; git ls-files -co --exclude-standard | grep -v ^seeded/ | xargs -I@ cp --parents @ {d}/verif/", cwd=ROOT)
        for f in ("harness/Cargo.toml", "digest/Cargo.toml", "bare/Cargo.toml", "wasm/Cargo.toml", "logged/Cargo.toml", "soft/Cargo.toml", "harness/src/bin/c27.rs", "harness/src/bin/c29.rs"):
            p = f"{d}/verif/{f}"; text = open(p).read().replace('"/repo', f'"{d}/repo'); open(p, "w").write(text)
        for p in props:
            rc, out = sh(f"bash check.sh {p}", cwd=f"{d}/verif", env={"VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=1800)
            print(name, p, "quiet" if rc == 0 else f"ALARM rc={rc} {[l for l in out.splitlines() if l.startswith('VIOLATION')][:2]} {out[-600:]}", flush=True)
    finally:
        shutil.rmtree(d)
main()
