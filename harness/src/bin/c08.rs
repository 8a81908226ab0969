//! C08: arcsine and arccosine.
use mmverif::{both, ensure, spec::*, F32Ext, Mon, Run};
use std::f64::consts::{FRAC_PI_2, PI};

const CLASSES: &[&str] = &["|x| < 1", "|x| = 1", "|x| > 1", "NaN", "tiny", "within 1e-3 of one"];

fn class(x: f32) -> usize {
    if x.is_nan() {
        3
    } else if x.abs() < 1.0 {
        0
    } else if x.abs() == 1.0 {
        1
    } else {
        2
    }
}

fn main() {
    let mut r = Run::new(
        "C08",
        "asin and acos are given every f32 bit pattern and compared with f64; outside of [-1, 1] the result has to be NaN; NaN inputs count as trivial",
    );
    r.all(&Mon::new("asin").classes(CLASSES).metrics(&["error", "error, |x| <= 0.9", "relative error, tiny"]), |a, o| {
        let x = f(a[0]);
        let c = class(x);
        o.class(c);
        let got = both!(asin, x);
        if c >= 2 {
            if c == 3 {
                o.trivial();
            }
            ensure!(got.is_nan(), "asin = {got:?}, expected NaN");
            return Ok(());
        }
        let want = (x as f64).asin();
        let e = (got as f64 - want).abs();
        ensure!(o.within(0, e, 0.02), "asin = {got:?}, exact {want}, error {e:.3e}");
        if x.abs() <= 0.9 {
            o.within(1, e, 0.02);
        }
        if x.abs() < 1e-3 && x.abs() >= 1e-30 {
            o.class(4);
            let e = rel(got, want);
            ensure!(o.within(2, e, 0.1), "asin = {got:?}, exact {want}, relative error {e:.3e}");
        }
        if x.abs() > 0.999 {
            o.class(5);
        }
        ensure!((got.abs() as f64) <= FRAC_PI_2 + 1e-6, "asin = {got:?} is outside of [-pi/2, pi/2]");
        let g = both!(asin, -x);
        ensure!(g == -got, "asin(-x) = {g:?} but asin(x) = {got:?}");
        Ok(())
    });
    r.all(&Mon::new("acos").classes(CLASSES).metrics(&["error", "error, |x| <= 0.9"]), |a, o| {
        let x = f(a[0]);
        let c = class(x);
        o.class(c);
        let got = F32Ext::acos(x);
        if c >= 2 {
            if c == 3 {
                o.trivial();
            }
            ensure!(got.is_nan(), "acos = {got:?}, expected NaN");
            return Ok(());
        }
        let want = (x as f64).acos();
        let e = (got as f64 - want).abs();
        ensure!(o.within(0, e, 0.03), "acos = {got:?}, exact {want}, error {e:.3e}");
        if x.abs() <= 0.9 {
            o.within(1, e, 0.03);
        }
        if x.abs() < 1e-3 {
            o.class(4);
        }
        if x.abs() > 0.999 {
            o.class(5);
        }
        ensure!(got as f64 >= 0.0 && got as f64 <= PI + 1e-6, "acos = {got:?} is outside of [0, pi]");
        Ok(())
    });
    r.finish()
}
