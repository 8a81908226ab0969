//! C09: square root, inverse square root, hypotenuse.
use mmverif::{both, ensure, spec::*, Mon, Obs, Rng, Run, Verdict};

const CLASSES: &[&str] = &["normal", "subnormal", "zero", "+infinity", "negative", "NaN", "power of four"];

fn class(x: f32, o: &mut Obs) -> usize {
    let c = if x.is_nan() {
        5
    } else if x == 0.0 {
        2
    } else if x < 0.0 {
        4
    } else if x.is_infinite() {
        3
    } else if x.is_normal() {
        0
    } else {
        1
    };
    o.class(c);
    if x > 0.0 && x.to_bits() & 0x00ff_ffff == 0x0080_0000 & 0x00ff_ffff && x.is_normal() {
        o.class(6);
    }
    c
}

const HCLASSES: &[&str] = &["in range", "one argument zero", "overflow", "underflow", "NaN", "infinite", "equal arguments", "very different arguments"];

fn hypot(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y) = (f(a[0]), f(a[1]));
    let h = both!(hypot, x, y);
    if x.is_nan() || y.is_nan() {
        o.class(4);
        o.trivial();
        if !x.is_infinite() && !y.is_infinite() {
            ensure!(h.is_nan(), "hypot = {h:?}, expected NaN");
        }
        return Ok(());
    }
    let swap = both!(hypot, y, x);
    ensure!(same(h, swap), "hypot(x, y) = {h:?} but hypot(y, x) = {swap:?}");
    let flip = both!(hypot, -x, y);
    ensure!(same(h, flip), "hypot(x, y) = {h:?} but hypot(-x, y) = {flip:?}");
    if x.is_infinite() || y.is_infinite() {
        o.class(5);
        ensure!(h == f32::INFINITY, "hypot = {h:?}, expected infinity");
        return Ok(());
    }
    let want = (x as f64).hypot(y as f64);
    if want >= 1.8e19 {
        o.class(2);
        o.trivial();
        return Ok(());
    }
    if want < 1.1e-19 {
        o.class(3);
        // the squares underflow
        ensure!(o.within(1, (h as f64 - want).abs(), 2.5e-19), "hypot = {h:?}, exact {want:e}");
        return Ok(());
    }
    o.class(0);
    if x == 0.0 || y == 0.0 {
        o.class(1);
    }
    if x.abs() == y.abs() {
        o.class(6);
    }
    if x.abs() > 1e5 * y.abs() || y.abs() > 1e5 * x.abs() {
        o.class(7);
    }
    let e = rel(h, want);
    ensure!(o.within(0, e, 0.061), "hypot = {h:?}, exact {want}, relative error {e:.3e}");
    Ok(())
}

fn main() {
    let mut r = Run::new(
        "C09",
        "sqrt and invsqrt are given every f32 bit pattern and compared with f64; hypot gets random hostile pairs, special pairs and Pythagorean triples; NaN arguments and overflowing hypotenuses count as trivial",
    );
    let m = Mon::new("sqrt").classes(CLASSES).metrics(&["relative error", "absolute error at 0 and subnormals"]);
    if let Some(o) = r.all(&m, |a, o| {
        let x = f(a[0]);
        let c = class(x, o);
        let got = both!(sqrt, x);
        let want = (x as f64).sqrt();
        match c {
            0 => {
                let e = rel(got, want);
                ensure!(o.within(0, e, 0.061), "sqrt = {got:?}, exact {want}, relative error {e:.3e}");
            }
            1 | 2 => {
                let e = (got as f64 - want).abs();
                ensure!(got >= 0.0 && o.within(1, e, 2e-19), "sqrt = {got:?}, exact {want:e}");
            }
            3 => ensure!(got == f32::INFINITY, "sqrt = {got:?}, expected infinity"),
            4 => ensure!(got.is_nan(), "sqrt = {got:?}, expected NaN"),
            _ => {
                o.trivial();
                ensure!(got.is_nan(), "sqrt = {got:?}, expected NaN");
            }
        }
        Ok(())
    }) {
        if o.mean(0) > 0.05 {
            r.fail(&m, format!("the average deviation of sqrt over all positive normal numbers is {:.4}, above 5%", o.mean(0)));
        }
    }
    let m = Mon::new("invsqrt").classes(CLASSES).metrics(&["relative error"]);
    if let Some(o) = r.all(&m, |a, o| {
        let x = f(a[0]);
        let c = class(x, o);
        let got = both!(invsqrt, x);
        match c {
            0 => {
                let want = 1.0 / (x as f64).sqrt();
                let e = rel(got, want);
                ensure!(o.within(0, e, 0.0345), "invsqrt = {got:?}, exact {want}, relative error {e:.3e}");
            }
            1 | 2 => ensure!(got > 8e18 && got.is_finite(), "invsqrt = {got:?}, expected a large finite number"),
            3 => ensure!(got >= 0.0 && got < 1e-18, "invsqrt(infinity) = {got:?}"),
            4 => ensure!(got.is_nan(), "invsqrt = {got:?}, expected NaN"),
            _ => {
                o.trivial();
                ensure!(got.is_nan(), "invsqrt = {got:?}, expected NaN");
            }
        }
        Ok(())
    }) {
        if o.mean(0) > 0.05 {
            r.fail(&m, format!("the average deviation of invsqrt over all positive normal numbers is {:.4}, above 5%", o.mean(0)));
        }
    }
    let hm = &["relative error", "absolute error, underflow"];
    let n = r.amount(150_000_000, 3_000_000_000);
    r.random(
        &Mon::new("hypot pairs").classes(HCLASSES).metrics(hm),
        n,
        |g: &mut Rng, v: &mut Vec<u32>| {
            let x = g.any();
            let y = if g.chance(3) { g.related(x) } else { g.any() };
            v.push(x.to_bits());
            v.push(y.to_bits());
        },
        hypot,
    );
    let k = r.amount(3000, 20000);
    r.enumerate(
        &Mon::new("hypot grid"),
        k * k,
        move |i, v| {
            v.push((((i / k) as f32) / 16.0).to_bits());
            v.push((((i % k) as f32) / 16.0).to_bits());
        },
        hypot,
    );
    let s = mmverif::gen::SPECIALS;
    let m = s.len() as u64 * 22;
    r.enumerate(
        &Mon::new("hypot special pairs"),
        m * m,
        move |i, v| {
            for j in [i / m, i % m] {
                let x = s[(j / 22) as usize].to_bits();
                let x = (x as i64 + (j % 11) as i64 - 5).clamp(0, 0x7f80_0001) as u32;
                v.push(x | ((j % 22 / 11) as u32) << 31);
            }
        },
        hypot,
    );
    r.finish()
}
