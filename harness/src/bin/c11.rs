//! C11: exponential and hyperbolic cosine.
use mmverif::{both, ensure, spec::*, Mon, Run, F32};

const CLASSES: &[&str] = &["overflow", "edge of overflow", "positive", "negative", "underflow", "zero", "+infinity", "-infinity", "NaN"];
const LN_MAX: f64 = 88.722_839_111_673;
const LN_MIN: f64 = -87.336_544_750_553;

fn main() {
    let mut r = Run::new(
        "C11",
        "exp and cosh are given every f32 bit pattern and compared with f64; NaN inputs count as trivial",
    );
    r.all(
        &Mon::new("exp").classes(CLASSES).metrics(&["relative error, x > 0", "relative error, x < 0", "absolute error, underflow", "relative error, |x| <= 1e-3"]),
        |a, o| {
            let x = f(a[0]);
            let got = both!(exp, x);
            if x.is_nan() {
                o.class(8);
                o.trivial();
                ensure!(got.is_nan(), "exp = {got:?}, expected NaN");
                return Ok(());
            }
            ensure!(got >= 0.0, "exp = {got:?}");
            let v = x as f64;
            if x.is_infinite() {
                o.class(if x > 0.0 { 6 } else { 7 });
                let want = if x > 0.0 { f32::INFINITY } else { 0.0 };
                ensure!(got == want, "exp = {got:?}, expected {want:?}");
                return Ok(());
            }
            if v > LN_MAX + 0.004 {
                o.class(0);
                ensure!(got == f32::INFINITY, "exp = {got:?}, expected infinity");
                return Ok(());
            }
            if v > LN_MAX - 0.004 {
                o.class(1);
                ensure!(got > 3.38e38, "exp = {got:?}, expected nearly the largest number or infinity");
                return Ok(());
            }
            let want = v.exp();
            if x == 0.0 {
                o.class(5);
                ensure!(got == 1.0, "exp(0) = {got:?}");
                return Ok(());
            }
            if v < LN_MIN + 0.004 {
                o.class(4);
                let e = (got as f64 - want).abs();
                ensure!(o.within(2, e, 1.2e-38), "exp = {got:?}, exact {want:e}");
                return Ok(());
            }
            let e = rel(got, want);
            if x.abs() <= 1e-3 {
                ensure!(o.within(3, e, 1e-6), "exp = {got:?}, exact {want}, relative error {e:.3e}");
            }
            if x > 0.0 {
                o.class(2);
                ensure!(o.within(0, e, 0.001), "exp = {got:?}, exact {want}, relative error {e:.3e}");
            } else {
                o.class(3);
                ensure!(o.within(1, e, 0.0025), "exp = {got:?}, exact {want}, relative error {e:.3e}");
            }
            Ok(())
        },
    );
    let m = &["absolute error, |x| <= pi", "absolute error, pi..tau", "relative error beyond"];
    r.all(&Mon::new("cosh").classes(&["|x| <= pi", "|x| <= tau", "|x| <= 88", "edge of overflow", "overflow", "NaN"]).metrics(m), |a, o| {
        let x = f(a[0]);
        let got = F32(x).cosh().0;
        if x.is_nan() {
            o.class(5);
            o.trivial();
            ensure!(got.is_nan(), "cosh = {got:?}, expected NaN");
            return Ok(());
        }
        let neg = F32(-x).cosh().0;
        ensure!(same(got, neg), "cosh(x) = {got:?} but cosh(-x) = {neg:?}");
        let v = x.abs() as f64;
        let want = v.cosh();
        let e = (got as f64 - want).abs();
        if v <= std::f32::consts::PI as f64 {
            o.class(0);
            ensure!(o.within(0, e, BOUND_PI), "cosh = {got:?}, exact {want}, error {e:.3e}");
        } else if v <= std::f32::consts::TAU as f64 {
            o.class(1);
            ensure!(o.within(1, e, 0.1), "cosh = {got:?}, exact {want}, error {e:.3e}");
        } else if v <= LN_MAX - 0.004 {
            o.class(2);
            let e = rel(got, want);
            ensure!(o.within(2, e, 0.001), "cosh = {got:?}, exact {want}, relative error {e:.3e}");
        } else if v <= LN_MAX + 0.004 {
            o.class(3);
            ensure!(got > 1.6e38, "cosh = {got:?}, exact {want:e}");
        } else {
            o.class(4);
            ensure!(got == f32::INFINITY, "cosh = {got:?}, expected infinity");
        }
        Ok(())
    });
    r.finish()
}

/// The documented error.
const BOUND_PI: f64 = 0.003;
