//! C06: arctangent.
use mmverif::{both, ensure, spec::*, Mon, Run};
use std::f64::consts::FRAC_PI_2;

const CLASSES: &[&str] = &["|x| <= 1", "|x| <= 1e4", "beyond 1e4", "square overflows", "infinite", "NaN", "negative"];

fn main() {
    let mut r = Run::new(
        "C06",
        "atan and atan_norm are given every f32 bit pattern and compared with f64 atan; oddness is judged on the bits; NaN inputs count as trivial",
    );
    r.all(&Mon::new("atan").classes(CLASSES).metrics(&["atan error (rad)", "atan_norm error (degrees)", "relative error, |x| <= 1"]), |a, o| {
        let x = f(a[0]);
        let n = both!(atan_norm, x);
        let got = both!(atan, x);
        if x.is_nan() {
            o.class(5);
            o.trivial();
            ensure!(got.is_nan() && n.is_nan(), "atan = {got:?}, atan_norm = {n:?}, expected NaN");
            return Ok(());
        }
        let m = x.abs();
        o.class(if m <= 1.0 { 0 } else if m <= 1e4 { 1 } else if m < 1.8e19 { 2 } else if m.is_finite() { 3 } else { 4 });
        if x < 0.0 {
            o.class(6);
        }
        let want = (x as f64).atan();
        let e = (got as f64 - want).abs();
        ensure!(o.within(0, e, 0.00287), "atan = {got:?}, exact {want}, error {e:.3e}");
        let en = (n as f64 * 90.0 - want.to_degrees()).abs();
        ensure!(o.within(1, en, 0.1645), "atan_norm = {n:?}, exact {}, error {en:.3e} degrees", want / FRAC_PI_2);
        ensure!(n.abs() <= 1.0, "atan_norm = {n:?} is outside of [-1, 1]");
        ensure!(got as f64 >= -FRAC_PI_2 - 1e-6 && got as f64 <= FRAC_PI_2 + 1e-6, "atan = {got:?} is outside of [-pi/2, pi/2]");
        if m <= 1.0 && m >= 1e-30 {
            let e = rel(got, want);
            ensure!(o.within(2, e, 0.07), "atan = {got:?}, exact {want}, relative error {e:.3e}");
        }
        let (ga, na) = (both!(atan, -x), both!(atan_norm, -x));
        ensure!(ga == -got && na == -n, "atan(-x) = {ga:?} but atan(x) = {got:?}");
        Ok(())
    });
    r.finish()
}
