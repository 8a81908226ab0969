//! C03: Euclidean division and remainder are those of std.
use mmverif::{both, ensure, spec::*, Mon, Obs, Rng, Run, Verdict};

const CLASSES: &[&str] = &[
    "x >= 0, y > 0", "x < 0, y > 0", "x >= 0, y < 0", "x < 0, y < 0", "zero divisor", "infinite divisor", "infinite dividend", "NaN",
    "no remainder", "remainder", "quotient above 2^24", "|x| < |y|",
];

fn check(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y) = (f(a[0]), f(a[1]));
    // The definitions in std's documentation, in single precision like std's.
    let r = x % y;
    let want_r = if r < 0.0 { r + y.abs() } else { r };
    let t = (x / y).trunc();
    let want_q = if r < 0.0 {
        if y > 0.0 { t - 1.0 } else { t + 1.0 }
    } else {
        t
    };
    if x.is_nan() || y.is_nan() {
        o.class(7);
        o.trivial();
    } else if y == 0.0 {
        o.class(4);
    } else if x.is_infinite() {
        o.class(6);
    } else {
        if y.is_infinite() {
            o.class(5);
        }
        o.class((x < 0.0) as usize + 2 * (y < 0.0) as usize);
        o.class(if r == 0.0 { 8 } else { 9 });
        if t.abs() > 16_777_216.0 {
            o.class(10);
        }
        if x.abs() < y.abs() {
            o.class(11);
        }
    }
    let got_r = both!(rem_euclid, x, y);
    let got_q = both!(div_euclid, x, y);
    ensure!(same(got_r, want_r), "rem_euclid = {got_r:?}, expected {want_r:?}");
    ensure!(same(got_r, f32::rem_euclid(x, y)), "rem_euclid = {got_r:?}, std {:?}", f32::rem_euclid(x, y));
    ensure!(same(got_q, want_q), "div_euclid = {got_q:?}, expected {want_q:?}");
    ensure!(same(got_q, f32::div_euclid(x, y)), "div_euclid = {got_q:?}, std {:?}", f32::div_euclid(x, y));
    if x.is_finite() && y != 0.0 && !y.is_nan() {
        ensure!(got_r >= 0.0 && got_r <= y.abs(), "rem_euclid = {got_r:?} is not in [0, |y|]");
    }
    Ok(())
}

fn pair(g: &mut Rng, v: &mut Vec<u32>) {
    let y = g.any();
    let x = if g.chance(2) { g.related(y) } else { g.any() };
    v.push(x.to_bits());
    v.push(y.to_bits());
}

fn main() {
    let mut r = Run::new(
        "C03",
        "random hostile pairs (specials and neighbours, integers and halves, multiples of each other, raw bits), a grid of k/8 by k/8 and of all special pairs; NaN arguments count as trivial",
    );
    let n = r.amount(150_000_000, 3_000_000_000);
    r.random(&Mon::new("pairs").classes(CLASSES), n, pair, check);
    let k: i64 = if r.tier_thorough { 6000 } else { 2000 };
    let w = (2 * k + 1) as u64;
    r.enumerate(
        &Mon::new("grid k/8"),
        w * w,
        move |i, v| {
            v.push(((i / w) as i64 - k).wrapping_mul(1) as u32);
            v.push(((i % w) as i64 - k) as u32);
            v[0] = (v[0] as i32 as f32 / 8.0).to_bits();
            v[1] = (v[1] as i32 as f32 / 8.0).to_bits();
        },
        check,
    );
    let s = mmverif::gen::SPECIALS;
    let m = s.len() as u64 * 22;
    r.enumerate(
        &Mon::new("special pairs"),
        m * m,
        move |i, v| {
            for j in [i / m, i % m] {
                let x = s[(j / 22) as usize].to_bits();
                let x = (x as i64 + (j % 11) as i64 - 5).clamp(0, 0x7f80_0001) as u32;
                v.push(x | ((j % 22 / 11) as u32) << 31);
            }
        },
        check,
    );
    r.finish()
}
