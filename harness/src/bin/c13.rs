//! C13: powers with float exponents.
use mmverif::{both, ensure, spec::*, Mon, Obs, Rng, Run, Verdict};

const CLASSES: &[&str] = &[
    "positive base", "negative base, even", "negative base, odd", "negative base, fraction", "zero base", "overflow", "underflow",
    "zero exponent", "NaN", "infinite", "|exponent| < 1", "base one", "exponent beyond 2^24", "edge of the range", "base below one", "integer exponent",
    "zero base, negative exponent",
];
const LN_MAX: f64 = 88.722_839_111_673;
const LN_MIN: f64 = -87.336_544_750_553;

fn check(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, n) = (f(a[0]), f(a[1]));
    let got = both!(powf, x, n);
    if n == 0.0 {
        o.class(7);
        ensure!(got == 1.0, "powf = {got:?}, expected 1 for a zero exponent");
        return Ok(());
    }
    if x.is_nan() || n.is_nan() {
        o.class(8);
        o.trivial();
        ensure!(got.is_nan(), "powf = {got:?}, expected NaN");
        return Ok(());
    }
    if n.is_infinite() {
        o.class(9);
        o.trivial();
        return Ok(());
    }
    let integer = n.trunc() == n;
    let odd = integer && n.abs() < 16_777_216.0 && (n as i64) % 2 != 0;
    if x < 0.0 && !integer {
        o.class(3);
        ensure!(got.is_nan(), "powf = {got:?}, expected NaN: negative base, exponent not an integer");
        return Ok(());
    }
    ensure!(!got.is_nan(), "powf = NaN");
    if x == 0.0 || x.is_infinite() {
        o.class(if x == 0.0 { 4 } else { 9 });
        if n < 0.0 && x == 0.0 {
            o.class(16);
        }
        let zero = (x == 0.0) == (n > 0.0);
        if zero {
            ensure!(got == 0.0, "powf = {got:?}, expected zero");
        } else {
            ensure!(got.is_infinite(), "powf = {got:?}, expected an infinity");
            if x.is_infinite() {
                ensure!((got < 0.0) == (x < 0.0 && odd), "powf = {got:?}: wrong sign");
            }
        }
        return Ok(());
    }
    if x < 0.0 {
        o.class(if odd { 2 } else { 1 });
    } else {
        o.class(0);
    }
    if integer {
        o.class(15);
    }
    if n.abs() < 1.0 {
        o.class(10);
    }
    if x == 1.0 {
        o.class(11);
    }
    if n.abs() > 16_777_216.0 {
        o.class(12);
    }
    if x.abs() < 1.0 {
        o.class(14);
    }
    let t = n as f64 * (x.abs() as f64).ln();
    // error of the exponent: that of the logarithm times n, the rounding of the product
    let slack = n.abs() as f64 * 1e-4 + t.abs() * 3e-7;
    let sign_ok = |g: f32| g == 0.0 || (g < 0.0) == (x < 0.0 && odd);
    ensure!(sign_ok(got), "powf = {got:?}: wrong sign");
    if t - slack > LN_MAX + 0.004 {
        o.class(5);
        ensure!(got.is_infinite(), "powf = {got:?}, expected an overflow (exponent of e {t:.3})");
        return Ok(());
    }
    if t + slack < LN_MIN {
        o.class(6);
        ensure!(got.abs() < 2.4e-38, "powf = {got:?}, expected an underflow (exponent of e {t:.3})");
        return Ok(());
    }
    let lo = ((t - slack).exp() * 0.9975) as f32;
    let hi = ((t + slack).exp() * 1.0025) as f32;
    let g = got.abs();
    if t + slack > LN_MAX - 0.004 || t - slack < LN_MIN + 0.004 {
        o.class(13);
        ensure!(g >= lo - 1.2e-38 && (g <= hi || t + slack > LN_MAX - 0.004) , "powf = {got:?}, expected {lo:?} ..= {hi:?}");
        if t - slack < LN_MIN + 0.004 {
            ensure!(g <= hi + 1.2e-38, "powf = {got:?}, expected at most {hi:?}");
        }
        return Ok(());
    }
    let e = (g as f64 / t.exp()).ln().abs();
    ensure!(o.within(0, e, slack + 0.0025), "powf = {got:?}, expected {:e}, off by {e:.3e} in the logarithm", t.exp());
    Ok(())
}

fn pair(g: &mut Rng, v: &mut Vec<u32>) {
    let x = match g.below(8) {
        0 => g.any(),
        1 => g.log(-126, 127),
        2 => 1.0 + g.log(-24, -2),
        _ => g.moderate(-20, 20),
    };
    let n = match g.below(12) {
        0 => g.any(),
        1 | 2 => g.range(-40, 40) as f32,
        3 => g.range(-400, 400) as f32 / 8.0,
        4 => g.intish(),
        5 => g.log(-10, 4),
        6 | 7 => {
            // aim at a result of chosen magnitude
            let t = g.uniform(-110.0, 95.0);
            t / x.abs().ln()
        }
        8 => {
            let t = g.uniform(-110.0, 95.0);
            (t / x.abs().ln()).round()
        }
        9 => g.special(),
        _ => g.uniform(-12.0, 12.0),
    };
    let x = if g.chance(3) { -x.abs() } else { x.abs() };
    v.push(x.to_bits());
    v.push(n.to_bits());
}

fn main() {
    let mut r = Run::new(
        "C13",
        "pairs (base, exponent): random, aimed at results over the whole range, integer and fractional exponents of both signs, special pairs, and exhaustive bases for fixed exponents; compared with n ln x in f64; NaN arguments and infinite exponents count as trivial",
    );
    let m = &["error of the logarithm"];
    let n = r.amount(200_000_000, 4_000_000_000);
    r.random(&Mon::new("pairs").classes(CLASSES).metrics(m), n, pair, check);
    let k = r.amount(1600, 4000) as i64;
    r.enumerate(
        &Mon::new("grid").metrics(m),
        (k * k) as u64,
        move |i, v| {
            v.push(((i as i64 / k - k / 2) as f32 / 8.0).to_bits());
            v.push(((i as i64 % k - k / 2) as f32 / 4.0).to_bits());
        },
        check,
    );
    let s = mmverif::gen::SPECIALS;
    let c = s.len() as u64 * 14;
    r.enumerate(
        &Mon::new("special pairs").metrics(m),
        c * c,
        move |i, v| {
            for j in [i / c, i % c] {
                let x = s[(j / 14) as usize].to_bits();
                let x = (x as i64 + (j % 7) as i64 - 3).clamp(0, 0x7f80_0001) as u32;
                v.push(x | ((j % 14 / 7) as u32) << 31);
            }
        },
        check,
    );
    let fixed: &[(&'static str, f32)] = &[("x, 0.5", 0.5), ("x, 2", 2.0), ("x, 3", 3.0), ("x, -1", -1.0), ("x, -2.5", -2.5)];
    let full = r.tier_thorough;
    let (pos, neg) = ((0, 0x7f80_0000), (0x8000_0000, 0xff80_0000));
    for &(name, e) in if full { fixed } else { &fixed[..3] } {
        // in the quick tier, bases of one sign
        let (lo, hi) = if full { (0, u32::MAX) } else if e == 3.0 { neg } else { pos };
        r.range(&Mon::new(name), lo, hi, move |a, o| check(&[a[0], e.to_bits()], o));
    }
    for (name, b, lo) in [("2, n", 2.0f32, 0), ("-3, n", -3.0, 0x8000_0000)] {
        // in the quick tier, exponents of one sign, up to 256
        let (lo, hi) = if full { (0, u32::MAX) } else { (lo, lo | 256f32.to_bits()) };
        r.range(&Mon::new(name), lo, hi, move |a, o| check(&[b.to_bits(), a[0]], o));
    }
    r.finish()
}
