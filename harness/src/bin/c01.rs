//! C01: floor, ceil, trunc, round and fract are exact.
use mmverif::{ensure, spec::*, F32Ext, Mon, Obs, Run, Verdict, F32};

const CLASSES: &[&str] = &["zero", "below one", "below 2^23", "2^23 and beyond", "infinite", "NaN", "integer", "half-way"];

fn classify(x: f32, o: &mut Obs) {
    let a = x.abs();
    let c = if x == 0.0 {
        0
    } else if a < 1.0 {
        1
    } else if a < 8_388_608.0 {
        2
    } else if a.is_finite() {
        3
    } else if a.is_infinite() {
        4
    } else {
        5
    };
    o.class(c);
    if c == 2 {
        // f64 arithmetic on f32 values below 2^23 is exact
        let d = x as f64 - (x as i64) as f64;
        if d == 0.0 {
            o.class(6);
        } else if d.abs() == 0.5 {
            o.class(7);
        }
    }
    if c == 5 {
        o.trivial();
    }
}

/// The integer part of a finite value, by integer arithmetic.
fn int_part(x: f32) -> f64 {
    if x.abs() < 9e18 {
        (x as i64) as f64
    } else {
        x as f64
    }
}

fn check(op: &str, x: f32, got: f32, ext: f32, want: f64) -> Verdict {
    if x.is_nan() {
        ensure!(got.is_nan() && ext.is_nan(), "{op}({x:?}) = {got:?} / {ext:?}, expected NaN");
    } else {
        ensure!(got as f64 == want, "F32::{op}({x:?}) = {got:?}, expected {want:?}");
        ensure!(ext as f64 == want, "F32Ext::{op}({x:?}) = {ext:?}, expected {want:?}");
    }
    Ok(())
}

fn main() {
    let mut r = Run::new(
        "C01",
        "every one of the 2^32 f32 bit patterns is given to each operation, through F32 and F32Ext; the expected integer is computed with i64/f64 arithmetic; NaN inputs count as trivial",
    );
    r.all(&Mon::new("floor").classes(CLASSES), |a, o| {
        let x = f(a[0]);
        classify(x, o);
        let t = int_part(x);
        let want = if x.is_infinite() { x as f64 } else if (x as f64) < t { t - 1.0 } else { t };
        check("floor", x, F32(x).floor().0, F32Ext::floor(x), want)
    });
    r.all(&Mon::new("ceil").classes(CLASSES), |a, o| {
        let x = f(a[0]);
        classify(x, o);
        let t = int_part(x);
        let want = if x.is_infinite() { x as f64 } else if (x as f64) > t { t + 1.0 } else { t };
        check("ceil", x, F32(x).ceil().0, F32Ext::ceil(x), want)
    });
    r.all(&Mon::new("trunc").classes(CLASSES), |a, o| {
        let x = f(a[0]);
        classify(x, o);
        let want = if x.is_infinite() { x as f64 } else { int_part(x) };
        check("trunc", x, F32(x).trunc().0, F32Ext::trunc(x), want)
    });
    r.all(&Mon::new("round").classes(CLASSES), |a, o| {
        let x = f(a[0]);
        classify(x, o);
        let t = int_part(x);
        let d = x as f64 - t;
        let want = if x.is_infinite() {
            x as f64
        } else if d >= 0.5 {
            t + 1.0
        } else if d <= -0.5 {
            t - 1.0
        } else {
            t
        };
        check("round", x, F32(x).round().0, F32Ext::round(x), want)
    });
    r.all(&Mon::new("fract").classes(CLASSES), |a, o| {
        let x = f(a[0]);
        classify(x, o);
        if x.is_infinite() {
            // unspecified: it only has to return
            o.trivial();
            let _ = (F32(x).fract(), F32Ext::fract(x));
            return Ok(());
        }
        check("fract", x, F32(x).fract().0, F32Ext::fract(x), x as f64 - int_part(x))
    });
    r.finish()
}
