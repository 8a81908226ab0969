//! C12: logarithms.
use mmverif::{both, ensure, spec::*, Mon, Obs, Rng, Run, Verdict};

const CLASSES: &[&str] = &["above one", "below one", "subnormal", "one", "zero", "+infinity", "negative", "NaN"];

fn class(x: f32) -> usize {
    if x.is_nan() {
        7
    } else if x == 0.0 {
        4
    } else if x < 0.0 {
        6
    } else if x.is_infinite() {
        5
    } else if x == 1.0 {
        3
    } else if x > 1.0 {
        0
    } else if x.is_normal() {
        1
    } else {
        2
    }
}

fn unary(name: &str, x: f32, got: f32, scale: f64, o: &mut Obs) -> Verdict {
    let c = class(x);
    o.class(c);
    match c {
        7 => {
            o.trivial();
            ensure!(got.is_nan(), "{name} = {got:?}, expected NaN");
        }
        6 => ensure!(got.is_nan(), "{name} = {got:?}, expected NaN for a negative number"),
        4 => ensure!(got == f32::NEG_INFINITY, "{name} = {got:?}, expected -infinity"),
        5 => ensure!(got == f32::INFINITY, "{name} = {got:?}, expected infinity"),
        3 => ensure!(got == 0.0, "{name}(1) = {got:?}"),
        _ => {
            let want = (x as f64).ln() * scale;
            let e = (got as f64 - want).abs();
            ensure!(o.within(0, e, 1e-4 * scale), "{name} = {got:?}, exact {want}, error {e:.3e}");
        }
    }
    Ok(())
}

const LC: &[&str] = &["judged", "base near one", "outside of the domain", "NaN", "base below one", "x = base", "base 10", "base 2"];

fn log(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, b) = (f(a[0]), f(a[1]));
    let got = both!(log, x, b);
    if x.is_nan() || b.is_nan() {
        o.class(3);
        o.trivial();
        ensure!(got.is_nan(), "log = {got:?}, expected NaN");
        return Ok(());
    }
    if x < 0.0 || b < 0.0 {
        o.class(2);
        ensure!(got.is_nan(), "log = {got:?}, expected NaN for a negative argument");
        return Ok(());
    }
    if x == 0.0 || b == 0.0 || x.is_infinite() || b.is_infinite() {
        o.trivial();
        return Ok(());
    }
    let lb = (b as f64).ln();
    if lb.abs() < 0.01 {
        o.class(1);
        o.trivial();
        return Ok(());
    }
    o.class(0);
    if b < 1.0 {
        o.class(4);
    }
    if x == b {
        o.class(5);
    }
    if b == 10.0 {
        o.class(6);
    }
    if b == 2.0 {
        o.class(7);
    }
    let want = (x as f64).ln() / lb;
    let bound = 1e-4 * (1.0 + want.abs()) / (lb.abs() - 1e-4);
    let e = (got as f64 - want).abs();
    ensure!(o.within(0, e, bound), "log = {got:?}, exact {want}, error {e:.3e} > {bound:.3e}");
    Ok(())
}

fn main() {
    let mut r = Run::new(
        "C12",
        "ln, log2 and log10 are given every f32 bit pattern and compared with f64 ln; log gets random hostile pairs and integer pairs; NaN arguments, and bases within 1% of one, count as trivial",
    );
    let m = &["absolute error"];
    r.all(&Mon::new("ln").classes(CLASSES).metrics(m), |a, o| unary("ln", f(a[0]), both!(ln, f(a[0])), 1.0, o));
    r.all(&Mon::new("log2").classes(CLASSES).metrics(m), |a, o| unary("log2", f(a[0]), both!(log2, f(a[0])), std::f64::consts::LOG2_E, o));
    r.all(&Mon::new("log10").classes(CLASSES).metrics(m), |a, o| unary("log10", f(a[0]), both!(log10, f(a[0])), std::f64::consts::LOG10_E, o));
    let n = r.amount(150_000_000, 3_000_000_000);
    let em = &["error"];
    r.random(
        &Mon::new("log pairs").classes(LC).metrics(em),
        n,
        |g: &mut Rng, v: &mut Vec<u32>| {
            let pos = |g: &mut Rng, x: f32| if g.chance(64) { x } else { x.abs() };
            let b = match g.below(8) {
                0 => 2.0,
                1 => 10.0,
                2 => g.range(2, 100) as f32,
                _ => g.any(),
            };
            let x = if g.chance(4) { g.related(b) } else { g.any() };
            v.push(pos(g, x).to_bits());
            v.push(pos(g, b).to_bits());
        },
        log,
    );
    let k = r.amount(3000, 12000);
    r.enumerate(
        &Mon::new("log grid").metrics(em),
        k * k,
        move |i, v| {
            v.push(((i / k + 1) as f32 / 8.0).to_bits());
            v.push(((i % k + 1) as f32 / 8.0).to_bits());
        },
        log,
    );
    r.finish()
}
