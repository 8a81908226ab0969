//! C04: sine and cosine stay within their error.
use mmverif::{both, ensure, spec::*, F32Ext, Mon, Run, F32};

const CLASSES: &[&str] = &["|x| <= 2 pi", "|x| <= 4096", "|x| <= 2^20", "finite beyond", "infinite", "NaN"];

fn class(x: f32) -> usize {
    let a = x.abs();
    if a <= std::f32::consts::TAU {
        0
    } else if a <= 4096.0 {
        1
    } else if a <= 1_048_576.0 {
        2
    } else if a.is_finite() {
        3
    } else if a.is_infinite() {
        4
    } else {
        5
    }
}

/// The documented error plus the rounding of the argument.
fn bound(x: f32) -> f64 {
    let a = x.abs() as f64;
    if a <= 4096.0 { 0.002 } else { 0.002 + 2e-7 * a }
}

fn main() {
    let mut r = Run::new(
        "C04",
        "sin, cos and sin_cos are given every f32 bit pattern and compared with f64 sin/cos; inputs beyond 2^20 are only required to give a result of at most one in magnitude and count as trivial, NaN too",
    );
    let m = &["error up to 4096", "error up to 2^20"];
    for (name, which) in [("sin", 0), ("cos", 1)] {
        r.all(&Mon::new(name).classes(CLASSES).metrics(m), move |a, o| {
            let x = f(a[0]);
            let c = class(x);
            o.class(c);
            let got = if which == 0 { both!(sin, x) } else { both!(cos, x) };
            if c <= 3 {
                ensure!(got.abs() <= 1.000_001, "{name} = {got:?}, beyond one");
            }
            if c >= 3 {
                o.trivial();
                if c == 3 {
                    ensure!(got.is_finite(), "{name} = {got:?}, not finite");
                } else {
                    ensure!(got.is_nan(), "{name} = {got:?}, expected NaN");
                }
                return Ok(());
            }
            let want = if which == 0 { (x as f64).sin() } else { (x as f64).cos() };
            let e = (got as f64 - want).abs();
            ensure!(o.within((c == 2) as usize, e, bound(x)), "{name} = {got:?}, exact {want}, error {e:.3e} > {:.3e}", bound(x));
            Ok(())
        });
    }
    r.all(&Mon::new("sin_cos").classes(CLASSES), |a, o| {
        let x = f(a[0]);
        o.class(class(x));
        if x.is_nan() {
            o.trivial();
        }
        let (s, c) = F32(x).sin_cos();
        let (s2, c2) = F32Ext::sin_cos(x);
        ensure!(same_bits(s.0, s2) && same_bits(c.0, c2), "F32::sin_cos {:?} but F32Ext::sin_cos {:?}", (s, c), (s2, c2));
        let (ws, wc) = (F32(x).sin().0, F32(x).cos().0);
        ensure!(same(s.0, ws) && same(c.0, wc), "sin_cos = {:?} but (sin, cos) = {:?}", (s2, c2), (ws, wc));
        Ok(())
    });
    r.finish()
}
