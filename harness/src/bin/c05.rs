//! C05: tangent.
use mmverif::{both, ensure, spec::*, Mon, Run};

const CLASSES: &[&str] = &["|tan| <= 1", "|tan| <= 16", "near a pole", "beyond 4096", "infinite", "NaN", "x < 0", "x > 0"];

fn main() {
    let mut r = Run::new(
        "C05",
        "tan is given every f32 bit pattern; up to |x| = 4096 and |tan x| = 16 it is compared with f64 tan, elsewhere it only has to return a value that is not NaN (trivial)",
    );
    let k = std::env::var("K").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0025);
    r.all(&Mon::new("tan").classes(CLASSES).metrics(&["error over 1+tan^2", "error"]), move |a, o| {
        let x = f(a[0]);
        let got = both!(tan, x);
        if x.is_nan() || x.is_infinite() {
            o.trivial();
            o.class(if x.is_nan() { 5 } else { 4 });
            ensure!(got.is_nan(), "tan = {got:?}, expected NaN");
            return Ok(());
        }
        if x.abs() > 4096.0 {
            o.class(3);
            o.trivial();
            return Ok(());
        }
        o.class(if x < 0.0 { 6 } else { 7 });
        let want = (x as f64).tan();
        if want.abs() > 16.0 {
            o.class(2);
            o.trivial();
            return Ok(());
        }
        o.class((want.abs() > 1.0) as usize);
        let e = (got as f64 - want).abs();
        let b = k * (1.0 + want * want);
        ensure!(o.within(0, e, b), "tan = {got:?}, exact {want}, error {e:.3e} > {b:.3e}");
        ensure!(o.within(1, e, 0.6), "tan = {got:?}, exact {want}, error {e:.3e} > 0.6");
        Ok(())
    });
    r.finish()
}
