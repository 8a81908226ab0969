//! C10: reciprocals.
use mmverif::{both, ensure, num_traits_inv, spec::*, Mon, Run};

const CLASSES: &[&str] = &["zero", "subnormal", "normal below 2^126", "2^126 and beyond", "infinite", "NaN", "negative", "power of two"];

fn class(x: f32) -> usize {
    let a = x.abs();
    if x.is_nan() {
        5
    } else if a.is_infinite() {
        4
    } else if a >= 8.507_059e37 {
        3
    } else if a.is_normal() {
        2
    } else if a > 0.0 {
        1
    } else {
        0
    }
}

fn main() {
    let mut r = Run::new(
        "C10",
        "inv (through F32, F32Ext and num_traits::Inv) and recip are given every f32 bit pattern and compared with f64 division; NaN inputs count as trivial",
    );
    let m = Mon::new("inv").classes(CLASSES).metrics(&["relative error", "absolute error beyond 2^126"]);
    r.all(&m, |a, o| {
        let x = f(a[0]);
        let c = class(x);
        o.class(c);
        let got = both!(inv, x);
        let t = num_traits_inv(x);
        ensure!(same_bits(got, t), "inv = {got:?} but num_traits::Inv::inv = {t:?}");
        if c == 5 {
            o.trivial();
            ensure!(got.is_nan(), "inv = {got:?}, expected NaN");
            return Ok(());
        }
        if x < 0.0 {
            o.class(6);
        }
        ensure!(got.is_sign_negative() == x.is_sign_negative(), "inv = {got:?}: the sign of the number is lost");
        let want = 1.0 / x as f64;
        match c {
            0 | 1 => ensure!(got.abs() >= 8e37, "inv = {got:?}, expected a magnitude near the largest"),
            2 => {
                let e = rel(got, want);
                ensure!(o.within(0, e, 0.126), "inv = {got:?}, exact {want}, relative error {e:.3e}");
                if a[0] & 0x7f_ffff == 0 {
                    o.class(7);
                    ensure!(got as f64 == want, "inv = {got:?}, expected exactly {want:?} for a power of two");
                }
            }
            3 => {
                let e = (got as f64 - want).abs();
                ensure!(o.within(1, e, 1.2e-38), "inv = {got:?}, exact {want:e}");
            }
            _ => ensure!(got == 0.0, "inv = {got:?}, expected zero"),
        }
        Ok(())
    });
    r.all(&Mon::new("recip").classes(CLASSES).metrics(&["relative error"]), |a, o| {
        let x = f(a[0]);
        let c = class(x);
        o.class(c);
        let got = both!(recip, x);
        if c == 5 {
            o.trivial();
            ensure!(got.is_nan(), "recip = {got:?}, expected NaN");
            return Ok(());
        }
        if x < 0.0 {
            o.class(6);
        }
        let want = 1.0 / x as f64;
        match c {
            0 => ensure!(got == (1.0 / x), "recip = {got:?}, expected {:?}", 1.0 / x),
            1 => {
                o.trivial();
                ensure!(got.is_sign_negative() == x.is_sign_negative() || got.is_nan(), "recip = {got:?}: wrong sign");
            }
            2 | 3 => {
                if a[0] & 0x7f_ffff == 0 {
                    o.class(7);
                }
                // subnormal results are rounded to their precision
                let e = ((got as f64 - want).abs() - 1.5e-45).max(0.0) / want.abs();
                ensure!(o.within(0, e, 1e-5), "recip = {got:?}, exact {want}, relative error {e:.3e}");
            }
            _ => ensure!(got == 0.0 && got.is_sign_negative() == x.is_sign_negative(), "recip = {got:?}, expected a zero of the same sign"),
        }
        Ok(())
    });
    r.finish()
}
