//! C02: sign, magnitude and classification are exact.
use mmverif::{both, ensure, spec::*, Mon, Run, F32};
use std::num::FpCategory;

const CLASSES: &[&str] = &["zero", "subnormal", "normal", "infinite", "NaN", "sign bit set", "sign bit clear"];

fn main() {
    let mut r = Run::new(
        "C02",
        "abs, signum, negation, classification and the bit conversions are given every f32 bit pattern; copysign gets every bit pattern with both signs and random pairs; judged on the bits",
    );
    r.all(&Mon::new("sign and class").classes(CLASSES), |a, o| {
        let b = a[0];
        let x = f(b);
        let exp = (b >> 23) & 0xff;
        let man = b & 0x7f_ffff;
        let neg = b >> 31 == 1;
        let nan = exp == 255 && man != 0;
        let inf = exp == 255 && man == 0;
        o.class(match x.classify() {
            FpCategory::Zero => 0,
            FpCategory::Subnormal => 1,
            FpCategory::Normal => 2,
            FpCategory::Infinite => 3,
            FpCategory::Nan => 4,
        });
        o.class(if neg { 5 } else { 6 });
        let v = F32::from_bits(b);
        ensure!(v.to_bits() == b, "to_bits(from_bits({b:#x})) = {:#x}", v.to_bits());
        ensure!(v.0.to_bits() == b, "from_bits({b:#x}) holds {:?}", v.0);
        ensure!(F32(x).to_bits() == b, "to_bits of {x:?} = {:#x}", F32(x).to_bits());
        ensure!(v.is_nan() == nan, "is_nan = {}", v.is_nan());
        ensure!(v.is_infinite() == inf, "is_infinite = {}", v.is_infinite());
        ensure!(v.is_finite() == (exp != 255), "is_finite = {}", v.is_finite());
        ensure!(v.is_sign_negative() == neg, "is_sign_negative = {}", v.is_sign_negative());
        ensure!(v.is_sign_positive() == !neg, "is_sign_positive = {}", v.is_sign_positive());
        let abs = both!(abs, x);
        let neg_x = (-F32(x)).0;
        let sg = both!(signum, x);
        let p = both!(copysign, x, 2.0);
        let n = both!(copysign, x, -0.0);
        let one = both!(copysign, 1.5, x);
        ensure!(one.to_bits() == 1.5f32.to_bits() | (b & 0x8000_0000), "copysign(1.5, {x:?}) = {one:?}");
        if nan {
            ensure!(abs.is_nan() && sg.is_nan() && p.is_nan() && n.is_nan() && neg_x.is_nan(), "NaN lost: abs {abs:?} signum {sg:?} copysign {p:?} {n:?} neg {neg_x:?}");
            ensure!(p.is_sign_positive() && n.is_sign_negative(), "sign of NaN: {p:?} {n:?}");
        } else {
            let m = b & 0x7fff_ffff;
            ensure!(abs.to_bits() == m, "abs = {abs:?}");
            ensure!(p.to_bits() == m, "copysign(x, 2) = {p:?}");
            ensure!(n.to_bits() == m | 0x8000_0000, "copysign(x, -0.0) = {n:?}");
            ensure!(neg_x.to_bits() == b ^ 0x8000_0000, "-x = {neg_x:?}");
            ensure!(sg == if neg { -1.0 } else { 1.0 }, "signum = {sg:?}");
        }
        Ok(())
    });
    let n = r.amount(40_000_000, 1_000_000_000);
    r.random(
        &Mon::new("copysign pairs").classes(&["signs differ", "signs equal"]),
        n,
        |g, v| {
            v.push(g.any().to_bits());
            v.push(g.any().to_bits());
        },
        |a, o| {
            let (x, s) = (f(a[0]), f(a[1]));
            let c = both!(copysign, x, s);
            o.class((a[0] >> 31 == a[1] >> 31) as usize);
            if x.is_nan() {
                ensure!(c.is_nan() && c.is_sign_negative() == s.is_sign_negative(), "copysign = {c:?}");
            } else {
                let want = (a[0] & 0x7fff_ffff) | (a[1] & 0x8000_0000);
                ensure!(c.to_bits() == want, "copysign = {c:?}");
            }
            Ok(())
        },
    );
    r.finish()
}
