//! C07: four-quadrant arctangent.
use mmverif::{both, ensure, spec::*, F32Ext, Mon, Obs, Rng, Run, Verdict};
use std::f64::consts::PI;

const CLASSES: &[&str] = &[
    "quadrant 1", "quadrant 2", "quadrant 3", "quadrant 4", "on the x axis", "on the y axis", "origin", "one infinite", "NaN",
    "squares overflow", "squares underflow", "|y| = |x|", "just below the positive x axis",
];
const METRICS: &[&str] = &["atan2 error (rad)", "atan2_norm error (degrees)"];

fn check(a: &[u32], o: &mut Obs) -> Verdict {
    let (y, x) = (f(a[0]), f(a[1]));
    let got = both!(atan2, y, x);
    let n = F32Ext::atan2_norm(y, x);
    if x.is_nan() || y.is_nan() {
        o.class(8);
        o.trivial();
        ensure!(got.is_nan() && n.is_nan(), "atan2 = {got:?}, atan2_norm = {n:?}, expected NaN");
        return Ok(());
    }
    if x == 0.0 && y == 0.0 {
        o.class(6);
        ensure!(got == 0.0 && n == 0.0, "atan2 = {got:?}, atan2_norm = {n:?}, expected 0 at the origin");
        return Ok(());
    }
    if x.is_infinite() && y.is_infinite() {
        o.trivial();
        return Ok(());
    }
    if x.is_infinite() || y.is_infinite() {
        o.class(7);
    }
    if y == 0.0 {
        o.class(4);
    } else if x == 0.0 {
        o.class(5);
    } else {
        o.class(match (x > 0.0, y > 0.0) {
            (true, true) => 0,
            (false, true) => 1,
            (false, false) => 2,
            (true, false) => 3,
        });
    }
    let big = x.abs().max(y.abs());
    if big > 1.9e19 {
        o.class(9);
    }
    if big < 1e-23 {
        o.class(10);
    }
    if x.abs() == y.abs() {
        o.class(11);
    }
    if x > 0.0 && y < 0.0 && y / x > -1e-7 {
        o.class(12);
    }
    let want = (y as f64).atan2(x as f64);
    // modulo a full turn: the negative axis is taken up below
    let e = circ(got as f64, want, 2.0 * PI);
    ensure!(o.within(0, e, 0.00287), "atan2 = {got:?}, exact {want}, error {e:.3e}");
    ensure!(got as f64 >= -PI - 1e-6 && got as f64 <= PI + 1e-6, "atan2 = {got:?} is outside of [-pi, pi]");
    let deg = circ(n as f64 * 90.0, want.to_degrees(), 360.0);
    ensure!(o.within(1, deg, 0.1645), "atan2_norm = {n:?}, exact {}, error {deg:.3e} degrees", want.to_degrees() / 90.0);
    ensure!((0.0..4.0).contains(&n), "atan2_norm = {n:?} is outside of [0, 4)");
    // just above the axis, and on it, the angle is not below it
    if (y > 0.0 || y.to_bits() == 0) && x != 0.0 {
        ensure!(if x < 0.0 { got > 0.0 } else { got >= 0.0 }, "atan2 = {got:?}, below the axis");
    }
    if y < 0.0 && x > 0.0 {
        ensure!(got <= 0.0, "atan2 = {got:?}, above the axis");
    }
    // the half-plane is that of y, and the quarter that of x
    if y != 0.0 && x.is_finite() && y.is_finite() {
        let q = y.abs() as f64 / (x.abs() as f64 + y.abs() as f64);
        if q > 1e-6 {
            ensure!((got > 0.0) == (y > 0.0), "atan2 = {got:?} has the wrong sign for y = {y:?}");
        }
    }
    Ok(())
}

fn pair(g: &mut Rng, v: &mut Vec<u32>) {
    let y = g.any();
    let x = if g.chance(3) { g.related(y) } else { g.any() };
    let (x, y) = if g.chance(2) { (x, y) } else { (y, x) };
    v.push(y.to_bits());
    v.push(x.to_bits());
}

fn main() {
    let mut r = Run::new(
        "C07",
        "pairs (y, x): random hostile pairs (specials, neighbours, related by ratio, raw bits), every special pair, points on circles of many radii; compared with f64 atan2; NaN and doubly infinite pairs count as trivial",
    );
    let n = r.amount(150_000_000, 3_000_000_000);
    r.random(&Mon::new("pairs").classes(CLASSES).metrics(METRICS), n, pair, check);
    // circles: angle i/steps of a turn, radius 2^k
    let steps = r.amount(400_000, 8_000_000);
    r.enumerate(
        &Mon::new("circles").metrics(METRICS),
        steps * 50,
        move |i, v| {
            let t = (i % steps) as f64 / steps as f64 * 2.0 * PI;
            let rad = 2f64.powi((i / steps) as i32 * 5 - 122);
            v.push(((rad * t.sin()) as f32).to_bits());
            v.push(((rad * t.cos()) as f32).to_bits());
        },
        check,
    );
    let s = mmverif::gen::SPECIALS;
    let m = s.len() as u64 * 22;
    r.enumerate(
        &Mon::new("special pairs").metrics(METRICS),
        m * m,
        move |i, v| {
            for j in [i / m, i % m] {
                let x = s[(j / 22) as usize].to_bits();
                let x = (x as i64 + (j % 11) as i64 - 5).clamp(0, 0x7f80_0001) as u32;
                v.push(x | ((j % 22 / 11) as u32) << 31);
            }
        },
        check,
    );
    // every ratio: x fixed, y through all bit patterns (in the quick tier, of one sign each)
    let full = r.tier_thorough;
    for (name, x, lo, hi) in [("y, 1", 1.0f32, 0, 0x7f80_0000), ("y, -1", -1.0, 0x8000_0000, 0xff80_0000)] {
        let (lo, hi) = if full { (0, u32::MAX) } else { (lo, hi) };
        r.range(&Mon::new(name).metrics(METRICS), lo, hi, move |a, o| {
            // x is part of the replayed case
            check(&[a[0], x.to_bits()], o)
        });
    }
    r.finish()
}
