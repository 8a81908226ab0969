//! C14: integer powers.
use mmverif::{ensure, spec::*, F32Ext, Mon, Obs, Rng, Run, Verdict, F32};

const CLASSES: &[&str] = &[
    "judged", "overflow", "underflow", "subnormal result", "zero exponent", "zero base", "infinite base", "NaN base", "i32::MIN",
    "negative exponent", "negative base, odd exponent", "|base| < 0.5", "|base| >= 2", "|base| in 0.5..2", "|exponent| > 1000", "base +-1",
    "uncertain overflow", "subnormal base",
];
const LN_MAX: f64 = 88.722_839_111_673;
/// ln of half of the smallest subnormal number
const LN_TINY: f64 = -103.972_077_083_991_8;

fn check(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, n) = (f(a[0]), a[1] as i32);
    let got = F32(x).powi(n).0;
    let ext = F32Ext::powi(x, n);
    ensure!(same_bits(got, ext), "F32::powi returned {got:?} but F32Ext::powi returned {ext:?}");
    if n == i32::MIN {
        o.class(8);
    }
    if n == 0 {
        o.class(4);
        ensure!(got == 1.0, "powi = {got:?}, expected 1 for a zero exponent");
        return Ok(());
    }
    if x.is_nan() {
        o.class(7);
        o.trivial();
        ensure!(got.is_nan(), "powi = {got:?}, expected NaN");
        return Ok(());
    }
    ensure!(!got.is_nan(), "powi = NaN");
    let odd = n & 1 != 0;
    if x == 0.0 || x.is_infinite() {
        o.class(if x == 0.0 { 5 } else { 6 });
        if (x == 0.0) == (n > 0) {
            ensure!(got == 0.0, "powi = {got:?}, expected zero");
        } else {
            ensure!(got.is_infinite() && (got < 0.0) == (odd && x.is_sign_negative()), "powi = {got:?}, expected an infinity of the right sign");
        }
        return Ok(());
    }
    let negative = x < 0.0 && odd;
    ensure!(got == 0.0 || (got < 0.0) == negative, "powi = {got:?}: wrong sign");
    let m = x.abs();
    o.class(if m < 0.5 { 11 } else if m < 2.0 { 13 } else { 12 });
    if n < 0 {
        o.class(9);
    }
    if negative {
        o.class(10);
    }
    if n.unsigned_abs() > 1000 {
        o.class(14);
    }
    if m == 1.0 {
        o.class(15);
        ensure!(got.abs() == 1.0, "powi = {got:?}, expected a magnitude of one");
        return Ok(());
    }
    if !m.is_normal() {
        o.class(17);
    }
    let t = n as f64 * (m as f64).ln();
    // every multiplication (and the reciprocal, for negative exponents) rounds
    let slack = (n.unsigned_abs() as f64 + 2.0) * 1.3e-7;
    let g = got.abs();
    // a reciprocal that is a subnormal number has lost precision
    let lossy = n < 0 && m > 8.5e37;
    if t - slack > LN_MAX {
        o.class(1);
        ensure!(g.is_infinite(), "powi = {got:?}, expected an overflow (exponent of e {t:.3})");
    } else if t + slack < LN_TINY - 1e-6 {
        o.class(2);
        // a power on the way may have been rounded up to the smallest subnormal number
        ensure!(g <= 3e-45, "powi = {got:?}, expected zero (exponent of e {t:.3})");
    } else if t + slack > LN_MAX || slack > 80.0 {
        o.class(16);
        let lo = (t - slack).exp() as f32;
        ensure!(g >= lo * 0.999_999 - 3e-45, "powi = {got:?}, expected at least {lo:?}");
    } else if t - slack < -87.33 || lossy {
        o.class(3);
        let lo = (t - slack).exp() as f32;
        let hi = (t + slack).exp() as f32;
        ensure!(g >= lo * 0.999_999 - 3e-45 && g <= hi * 1.000_001 + 3e-45, "powi = {got:?}, expected {lo:?} ..= {hi:?}");
    } else {
        o.class(0);
        let e = (g as f64 / t.exp()).ln().abs();
        ensure!(o.within(0, e, slack), "powi = {got:?}, expected {:e}, off by {e:.3e} in the logarithm", t.exp());
    }
    Ok(())
}

fn pair(g: &mut Rng, v: &mut Vec<u32>) {
    let x = match g.below(8) {
        0 => g.any(),
        1 => g.log(-127, 127),
        2 => {
            let x = 1.0 + g.log(-24, -2);
            g.sign(x)
        }
        _ => g.moderate(-20, 20),
    };
    let aimed = |g: &mut Rng| {
        let t = g.uniform(-115.0, 100.0);
        (t / x.abs().ln()).round() as i32
    };
    let n = match g.below(8) {
        0 => g.u32() as i32,
        1 => {
            let d = g.range(-2, 2);
            (g.pick(&[i32::MIN as i64 + 2, i32::MAX as i64 - 2, 0, 1 << 24, -(1 << 24), 1 << 30, 127, -127, 149, -149]) + d) as i32
        }
        2 => (g.u32() as i32) >> g.below(31),
        3 | 4 => aimed(g),
        _ => g.range(-130, 130) as i32,
    };
    v.push(x.to_bits());
    v.push(n as u32);
}

fn main() {
    let mut r = Run::new(
        "C14",
        "pairs (base, i32 exponent): random, aimed at results over the whole range, extreme exponents; every exponent for fixed bases and every base for fixed exponents; compared with n ln x in f64; NaN bases count as trivial",
    );
    let m = &["error of the logarithm"];
    let n = r.amount(150_000_000, 4_000_000_000);
    r.random(&Mon::new("pairs").fmt("fi").classes(CLASSES).metrics(m), n, pair, check);
    let k = 300u64;
    r.enumerate(
        &Mon::new("grid").fmt("fi").metrics(m),
        3200 * 2 * k,
        move |i, v| {
            v.push(((i / (2 * k)) as f32 / 64.0 - 25.0).to_bits());
            v.push(((i % (2 * k)) as i32 - k as i32) as u32);
        },
        check,
    );
    let exps: &[(&'static str, i32)] = &[
        ("x, 2", 2), ("x, 3", 3), ("x, -1", -1), ("x, -2", -2), ("x, 1", 1), ("x, 5", 5), ("x, 7", 7), ("x, -3", -3), ("x, 16", 16), ("x, -149", -149), ("x, i32::MIN", i32::MIN), ("x, i32::MAX", i32::MAX),
    ];
    let full = r.tier_thorough;
    for &(name, e) in if full { exps } else { &exps[..3] } {
        // in the quick tier, of one sign
        let (lo, hi) = if full { (0, u32::MAX) } else if e == 3 { (0x8000_0000, 0xff80_0000) } else { (0, 0x7f80_0000) };
        r.range(&Mon::new(name).fmt("f"), lo, hi, move |a, o| check(&[a[0], e as u32], o));
    }
    let bases: &[(&'static str, f32)] = &[("0.75, n", 0.75), ("-1, n", -1.0), ("1.0001, n", 1.0001), ("0.3, n", 0.3), ("-7, n", -7.0), ("2, n", 2.0)];
    let span = r.amount(1 << 22, 1 << 31);
    for &(name, b) in bases {
        // centred on zero: in the thorough tier, every i32
        r.enumerate(
            &Mon::new(name).fmt("i"),
            2 * span,
            move |i, v| v.push((i as i64 - span as i64) as u32),
            move |a, o| check(&[b.to_bits(), a[0]], o),
        );
    }
    r.finish()
}
