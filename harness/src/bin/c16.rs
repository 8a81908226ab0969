//! C16: the extension trait on f32 computes what F32 computes.
use mmverif::{ensure, spec::*, Mon, Obs, Rng, Run, Verdict, F32Ext, F32};

const CLASSES: &[&str] = &["NaN", "infinite", "finite"];

macro_rules! agree {
    ($x:expr, $($op:ident),*) => {
        $({
            let (a, b) = (F32($x).$op().0, F32Ext::$op($x));
            ensure!(same_bits(a, b), concat!(stringify!($op), ": F32 {:?}, F32Ext {:?}"), a, b);
        })*
    };
}
macro_rules! agree2 {
    ($x:expr, $y:expr, $($op:ident),*) => {
        $({
            let (a, b) = (F32($x).$op(F32($y)).0, F32Ext::$op($x, $y));
            ensure!(same_bits(a, b), concat!(stringify!($op), ": F32 {:?}, F32Ext {:?}"), a, b);
        })*
    };
}

fn unary(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    o.class(if x.is_nan() { 0 } else if x.is_infinite() { 1 } else { 2 });
    agree!(x, abs, asin, atan, atan_norm, ceil, cos, exp, floor, fract, inv, invsqrt, ln, log2, log10, recip, round, signum, sin, sqrt, tan, trunc);
    let ((s, c), (t, d)) = (F32(x).sin_cos(), F32Ext::sin_cos(x));
    ensure!(same_bits(s.0, t) && same_bits(c.0, d), "sin_cos: F32 {:?}, F32Ext {:?}", (s.0, c.0), (t, d));
    // acos is reachable through the trait only
    let c = F32Ext::acos(x);
    if x.abs() <= 1.0 {
        let want = (x as f64).acos();
        ensure!((c as f64 - want).abs() <= 0.03, "acos = {c:?}, exact {want}");
        let s = F32Ext::asin(x);
        ensure!((c as f64 + s as f64 - std::f64::consts::FRAC_PI_2).abs() <= 0.05, "acos {c:?} and asin {s:?} are not complementary");
    } else {
        ensure!(c.is_nan(), "acos = {c:?}, outside of its domain");
    }
    Ok(())
}

fn multi(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y, z) = (f(a[0]), f(a[1]), f(a[2]));
    o.class(if x.is_nan() || y.is_nan() || z.is_nan() { 0 } else if x.is_infinite() || y.is_infinite() { 1 } else { 2 });
    agree2!(x, y, atan2, copysign, div_euclid, rem_euclid, hypot, log, powf);
    let n = a[2] as i32;
    let (p, q) = (F32(x).powi(n).0, F32Ext::powi(x, n));
    ensure!(same_bits(p, q), "powi(x, {n}): F32 {p:?}, F32Ext {q:?}");
    let (p, q) = (F32(x).mul_add(F32(y), F32(z)).0, F32Ext::mul_add(x, y, z));
    ensure!(same_bits(p, q), "mul_add: F32 {p:?}, F32Ext {q:?}");
    // so is atan2_norm: cross-check it with its sibling
    let n = F32Ext::atan2_norm(x, y);
    let t = F32Ext::atan2(x, y);
    if n.is_finite() && t.is_finite() {
        let d = circ(n as f64 * std::f64::consts::FRAC_PI_2, t as f64, std::f64::consts::TAU);
        ensure!(d < 5e-6, "atan2_norm {n:?} is not atan2 {t:?} normalized");
    } else {
        ensure!(n.is_nan() == t.is_nan(), "atan2_norm {n:?}, atan2 {t:?}");
    }
    Ok(())
}

fn main() {
    let mut r = Run::new(
        "C16",
        "each trait method and its F32 counterpart are called on the same arguments (strided bit patterns, all of them in the thorough tier; random hostile tuples) and the bits compared",
    );
    if r.tier_thorough {
        r.all(&Mon::new("unary").classes(CLASSES), unary);
    } else {
        let k = 7u64;
        let s = r.seed % k;
        r.enumerate(&Mon::new("unary strided"), (1u64 << 32) / k + 1, move |i, v| v.push((i * k + s).min(u32::MAX as u64) as u32), unary);
        r.random(&Mon::new("unary hostile").classes(CLASSES), 40_000_000, |g: &mut Rng, v: &mut Vec<u32>| v.push(g.any().to_bits()), unary);
    }
    let n = r.amount(100_000_000, 3_000_000_000);
    r.random(
        &Mon::new("binary, powi, mul_add").classes(CLASSES),
        n,
        |g: &mut Rng, v: &mut Vec<u32>| {
            let x = g.any();
            let y = if g.chance(3) { g.related(x) } else { g.any() };
            v.push(x.to_bits());
            v.push(y.to_bits());
            v.push(match g.below(4) {
                0 => g.range(-200, 200) as i32 as u32,
                1 => g.u32(),
                _ => g.any().to_bits(),
            });
        },
        multi,
    );
    r.finish()
}
