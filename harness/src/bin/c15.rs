//! C15: every operation returns, and NaN is not lost.
use mmverif::{ensure, spec::*, Mon, Obs, Rng, Run, Verdict, F32Ext, F32};
use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{F32x2, F32x3, Vector};
use micromath::Quaternion;
use std::hint::black_box as bb;

const CLASSES: &[&str] = &["NaN", "infinite", "finite"];

fn unary(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    o.class(if x.is_nan() { 0 } else if x.is_infinite() { 1 } else { 2 });
    let v = F32(x);
    let (s, c) = v.sin_cos();
    let (es, ec) = F32Ext::sin_cos(x);
    let results = [
        v.abs().0, v.asin().0, v.atan().0, v.atan_norm().0, v.ceil().0, v.cos().0, v.cosh().0, v.exp().0, v.floor().0, v.fract().0,
        v.inv().0, v.invsqrt().0, v.ln().0, v.log2().0, v.log10().0, v.recip().0, v.round().0, v.signum().0, v.sin().0, s.0, c.0,
        v.sqrt().0, v.tan().0, v.trunc().0,
        F32Ext::abs(x), F32Ext::acos(x), F32Ext::asin(x), F32Ext::atan(x), F32Ext::atan_norm(x), F32Ext::ceil(x), F32Ext::cos(x),
        F32Ext::exp(x), F32Ext::floor(x), F32Ext::fract(x), F32Ext::inv(x), F32Ext::invsqrt(x), F32Ext::ln(x), F32Ext::log2(x),
        F32Ext::log10(x), F32Ext::recip(x), F32Ext::round(x), F32Ext::signum(x), F32Ext::sin(x), es, ec, F32Ext::sqrt(x), F32Ext::tan(x),
        F32Ext::trunc(x),
    ];
    if x.is_nan() {
        for (i, r) in results.iter().enumerate() {
            ensure!(r.is_nan(), "operation {} of NaN is {r:?}", NAMES[i]);
        }
    }
    bb(&results);
    Ok(())
}

const NAMES: [&str; 48] = [
    "abs", "asin", "atan", "atan_norm", "ceil", "cos", "cosh", "exp", "floor", "fract", "inv", "invsqrt", "ln", "log2", "log10", "recip",
    "round", "signum", "sin", "sin_cos.0", "sin_cos.1", "sqrt", "tan", "trunc",
    "ext abs", "ext acos", "ext asin", "ext atan", "ext atan_norm", "ext ceil", "ext cos", "ext exp", "ext floor", "ext fract", "ext inv",
    "ext invsqrt", "ext ln", "ext log2", "ext log10", "ext recip", "ext round", "ext signum", "ext sin", "ext sin_cos.0", "ext sin_cos.1",
    "ext sqrt", "ext tan", "ext trunc",
];

fn binary(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y) = (f(a[0]), f(a[1]));
    let (nx, ny) = (x.is_nan(), y.is_nan());
    o.class(if nx || ny { 0 } else if x.is_infinite() || y.is_infinite() { 1 } else { 2 });
    let (v, w) = (F32(x), F32(y));
    let nan_if_either = [
        ("atan2", v.atan2(w).0), ("div_euclid", v.div_euclid(w).0), ("rem_euclid", v.rem_euclid(w).0), ("log", v.log(w).0),
        ("ext atan2", F32Ext::atan2(x, y)), ("ext atan2_norm", F32Ext::atan2_norm(x, y)), ("ext div_euclid", F32Ext::div_euclid(x, y)),
        ("ext rem_euclid", F32Ext::rem_euclid(x, y)), ("ext log", F32Ext::log(x, y)), ("mul_add", v.mul_add(w, w).0),
        ("ext mul_add", F32Ext::mul_add(x, y, x)),
    ];
    if nx || ny {
        for (n, r) in nan_if_either {
            ensure!(r.is_nan(), "{n} = {r:?} though an argument is NaN");
        }
    }
    for (n, r) in [("hypot", v.hypot(w).0), ("ext hypot", F32Ext::hypot(x, y))] {
        if (nx || ny) && !x.is_infinite() && !y.is_infinite() {
            ensure!(r.is_nan(), "{n} = {r:?} though an argument is NaN");
        }
        if !nx && !ny {
            ensure!(r >= 0.0, "{n} = {r:?}");
        }
    }
    for (n, r) in [("powf", v.powf(w).0), ("ext powf", F32Ext::powf(x, y))] {
        if (nx && y != 0.0) || (ny && x != 1.0) {
            ensure!(r.is_nan(), "{n} = {r:?} though an argument is NaN");
        }
    }
    for (n, r) in [("powi", v.powi(a[1] as i32).0), ("ext powi", F32Ext::powi(x, a[1] as i32))] {
        if nx && a[1] != 0 {
            ensure!(r.is_nan(), "{n} = {r:?} though the base is NaN");
        }
    }
    bb((v.copysign(w), F32Ext::copysign(x, y)));
    bb((v + w, v - w, v * w, v / w, v % w, v == w, v < w));
    Ok(())
}

fn composite(a: &[u32], o: &mut Obs) -> Verdict {
    let x: Vec<f32> = a.iter().map(|&b| f(b)).collect();
    o.class(if x.iter().any(|v| v.is_nan()) { 0 } else if x.iter().any(|v| v.is_infinite()) { 1 } else { 2 });
    let (q, p) = (Quaternion::new(x[0], x[1], x[2], x[3]), Quaternion::new(x[4], x[5], x[6], x[7]));
    let (u, v) = (F32x3::from((x[0], x[1], x[2])), F32x3::from((x[3], x[4], x[5])));
    bb((q * p, q + p, q - p, q.conj(), q.dot(p), q.norm(), q.magnitude(), q.to_euler(), q.rotate(v), q * v, q.scale(x[4]), q * x[4]));
    if q.norm() != 0.0 {
        bb((q.normalize(), q.inv()));
    }
    bb((Quaternion::from_two_vectors(u, v), Quaternion::axis_angle(u, x[3]), Quaternion::from(u)));
    bb((u + v, u - v, u * v, u * x[6], u / x[6], u.dot(v), u.cross(v), u.magnitude(), u.magnitude_sq(), u.distance(v), u.normalized()));
    let (s, t) = (F32x2::from((x[0], x[1])), F32x2::from((x[2], x[3])));
    bb((s + t, s - t, s * t, s * x[6], s / x[6], s.dot(t), s.perpendicular_dot(t), s.cross(t), s.magnitude(), s.magnitude_sq(), s.distance(t), s.normalized()));
    let nan = x.iter().any(|v| v.is_nan());
    let (nq, np) = (x[..4].iter().any(|v| v.is_nan()), x[4..].iter().any(|v| v.is_nan()));
    if nq {
        let (roll, pitch, yaw) = q.to_euler();
        for (n, r) in [("magnitude", q.magnitude()), ("norm", q.norm()), ("roll", roll), ("pitch", pitch), ("yaw", yaw)] {
            ensure!(r.is_nan(), "{n} of {q:?} = {r:?}");
        }
        for (n, r) in [("inv", q.inv()), ("normalize", q.normalize()), ("conj", q.conj())] {
            ensure!(r.to_array().iter().any(|c| c.is_nan()), "{n} of {q:?} = {r:?}");
        }
        ensure!(q.inv().w().is_nan() && q.normalize().w().is_nan(), "{q:?}: inv {:?}, normalize {:?}", q.inv(), q.normalize());
    }
    if nq || np {
        let r = q.dot(p);
        ensure!(r.is_nan(), "{q:?} dot {p:?} = {r:?}");
        let r = q * p;
        ensure!(r.to_array().iter().all(|c| c.is_nan()), "{q:?} * {p:?} = {r:?}");
    }
    if nq || x[3..6].iter().any(|v| v.is_nan()) {
        for r in [q.rotate(v), q * v] {
            ensure!(r.iter().all(|c| c.is_nan()), "{q:?} rotating {v:?} = {r:?}");
        }
    }
    let (nu, nv) = (x[..3].iter().any(|v| v.is_nan()), x[3..6].iter().any(|v| v.is_nan()));
    if nu || nv {
        for (n, r) in [("dot", u.dot(v)), ("distance", u.distance(v))] {
            ensure!(r.is_nan(), "{n} of {u:?} and {v:?} = {r:?}");
        }
        let r = Quaternion::from_two_vectors(u, v);
        ensure!(r.to_array().iter().all(|c| c.is_nan()), "from {u:?} to {v:?}: {r:?}");
        ensure!(u.cross(v).iter().any(|c| c.is_nan()), "cross product of {u:?} and {v:?} = {:?}", u.cross(v));
        let r = Quaternion::axis_angle(u, x[3]);
        ensure!(!(nu || x[3].is_nan()) || r.to_array().iter().any(|c| c.is_nan()), "axis_angle({u:?}, {:?}) = {r:?}", x[3]);
    }
    if nu {
        ensure!(u.magnitude().is_nan() && u.magnitude_sq().is_nan() && u.normalized().iter().all(|c| c.is_nan()), "of {u:?}: {:?} {:?} {:?}", u.magnitude(), u.magnitude_sq(), u.normalized());
    }
    let (ns, nt) = (x[..2].iter().any(|v| v.is_nan()), x[2..4].iter().any(|v| v.is_nan()));
    if ns || nt {
        for (n, r) in [("dot", s.dot(t)), ("perpendicular_dot", s.perpendicular_dot(t)), ("distance", s.distance(t)), ("cross", s.cross(t).z)] {
            ensure!(r.is_nan(), "{n} of {s:?} and {t:?} = {r:?}");
        }
    }
    if ns {
        ensure!(s.magnitude().is_nan() && s.magnitude_sq().is_nan() && s.normalized().iter().all(|c| c.is_nan()), "of {s:?}: {:?} {:?} {:?}", s.magnitude(), s.magnitude_sq(), s.normalized());
    }
    for k in [0, 1, 2, 5, 8] {
        let sl = &x[..k];
        let (m, var, sd) = (sl.iter().copied().mean(), sl.variance(), sl.stddev());
        let n = sl.trim().count();
        let n1 = sl.trim_at(x[7]).count();
        ensure!(n <= k && n1 <= k, "trim of {k} values kept {n} / {n1}");
        if k == 8 && nan {
            ensure!(m.is_nan() && var.is_nan() && sd.is_nan(), "mean {m:?}, variance {var:?}, stddev {sd:?} of values with a NaN");
        }
    }
    Ok(())
}

fn main() {
    let mut r = Run::new(
        "C15",
        "all unary operations get strided bit patterns (all of them in the thorough tier) and every NaN; binary operations, powi, quaternions, vectors and statistics get random hostile arguments; a panic, a call of over 20 s CPU or a lost NaN is a violation",
    );
    r.assume("the code under test is built with overflow checks and debug assertions");
    if r.tier_thorough {
        r.all(&Mon::new("unary").classes(CLASSES), unary);
    } else {
        let k = 11u64;
        let s = r.seed % k;
        r.enumerate(&Mon::new("unary strided"), (1u64 << 32) / k + 1, move |i, v| v.push((i * k + s).min(u32::MAX as u64) as u32), unary);
        r.range(&Mon::new("unary +NaN"), 0x7f80_0000, 0x7fff_ffff, unary);
        r.range(&Mon::new("unary -NaN"), 0xff80_0000, 0xffff_ffff, unary);
        r.random(&Mon::new("unary hostile"), 20_000_000, |g: &mut Rng, v: &mut Vec<u32>| v.push(g.any().to_bits()), unary);
    }
    let n = r.amount(60_000_000, 2_000_000_000);
    r.random(
        &Mon::new("binary").classes(CLASSES),
        n,
        |g: &mut Rng, v: &mut Vec<u32>| {
            let x = g.any();
            let y = if g.chance(3) { g.related(x) } else { g.any() };
            v.push(x.to_bits());
            v.push(if g.chance(4) { g.u32() >> g.below(32) } else { y.to_bits() });
        },
        binary,
    );
    let s = mmverif::gen::SPECIALS;
    let c = s.len() as u64 * 14;
    r.enumerate(
        &Mon::new("binary special pairs"),
        c * c,
        move |i, v| {
            for j in [i / c, i % c] {
                let x = s[(j / 14) as usize].to_bits();
                let x = (x as i64 + (j % 7) as i64 - 3).clamp(0, 0x7f80_0001) as u32;
                v.push(x | ((j % 14 / 7) as u32) << 31);
            }
        },
        binary,
    );
    let n = r.amount(10_000_000, 400_000_000);
    r.random(
        &Mon::new("vectors, quaternions, statistics").classes(CLASSES),
        n,
        |g: &mut Rng, v: &mut Vec<u32>| {
            let style = g.below(4);
            let base = g.any();
            for _ in 0..8 {
                let x = match style {
                    0 => g.any(),
                    1 => g.related(base),
                    2 => g.range(-2, 2) as f32,
                    _ => g.hostile(),
                };
                v.push(x.to_bits());
            }
        },
        composite,
    );
    r.finish()
}
