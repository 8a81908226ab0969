//! C38: an operation and its inverse lead back to where they started.
use micromath::vector::{F32x2, F32x3, I16x3, I32x2, I32x3};
use micromath::Quaternion;
use mmverif::{ensure, spec::*, F32Ext, Mon, Obs, Rng, Run, Verdict, F32};
use std::f64::consts::{FRAC_PI_2, PI, TAU};

fn back(o: &mut Obs, m: usize, what: &str, x: f64, got: f64, err: f64, bound: f64) -> Verdict {
    o.class(m);
    ensure!(o.within(m, err, bound), "{what}: from {x:?} to {got:?}, off by {err:e} of {bound:e}");
    Ok(())
}

const UNARY: &[&str] = &[
    "sqrt squared", "sqrt of the square", "invsqrt squared, times x", "inv of inv", "recip of recip", "exp of ln", "ln of exp",
    "sin of asin", "asin of sin", "cos of acos", "acos of cos", "tan of atan", "atan of tan", "signs",
];

fn unary(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    let (v, w) = (F32(x), x as f64);
    let t = x.abs();
    if x.is_nan() {
        o.trivial();
        return Ok(());
    }
    o.class(13);
    ensure!(same_bits(v.abs().copysign(v).0, x) && same_bits((-(-v)).0, x), "abs(x).copysign(x) and -(-x) of {x:?}");
    if t < f32::MIN_POSITIVE || t.is_infinite() {
        return Ok(());
    }
    let s = F32(t);
    let r = s.sqrt().0 as f64;
    back(o, 0, "sqrt(x)^2", w, r * r, (r * r / t as f64 - 1.0).abs(), 0.126)?;
    let q = s.invsqrt().0 as f64;
    back(o, 2, "invsqrt(x)^2 x", w, q * q * t as f64, (q * q * t as f64 - 1.0).abs(), 0.07)?;
    if t > 1.2e-19 && t < 1.8e19 {
        let r = F32(x * x).sqrt().0;
        back(o, 1, "sqrt(x^2)", w, r as f64, rel(r, t as f64), 0.061)?;
    }
    if t < 8e37 {
        let (i, r) = (v.inv().inv().0, v.recip().recip().0);
        back(o, 3, "inv(inv(x))", w, i as f64, rel(i, w), 0.26)?;
        back(o, 4, "recip(recip(x))", w, r as f64, rel(r, w), 2e-5)?;
    }
    let e = s.ln().exp().0;
    if t < 3.3e38 {
        back(o, 5, "exp(ln(|x|))", t as f64, e as f64, rel(e, t as f64), 2.7e-3)?;
    }
    if t < 87.0 {
        let l = v.exp().ln().0 as f64;
        back(o, 6, "ln(exp(x))", w, l, (l - w).abs(), 2.7e-3)?;
    }
    if t <= 1.0 {
        let (p, q) = (v.asin().sin().0 as f64, F32(F32Ext::acos(x)).cos().0 as f64);
        back(o, 7, "sin(asin(x))", w, p, (p - w).abs(), 0.017)?;
        back(o, 9, "cos(acos(x))", w, q, (q - w).abs(), 0.0225)?;
    }
    if t <= 1.5 {
        let p = v.sin().asin().0 as f64;
        back(o, 8, "asin(sin(x))", w, p, (p - w).abs(), 0.021)?;
    }
    if x >= 0.07 && x <= 3.07 {
        let p = F32Ext::acos(v.cos().0) as f64;
        back(o, 10, "acos(cos(x))", w, p, (p - w).abs(), 0.0315)?;
    }
    if t <= 100.0 {
        let p = v.atan().tan().0 as f64;
        back(o, 11, "tan(atan(x))", w, p, (p - w).abs() / (1.0 + w * w), 0.0045)?;
    }
    if t <= 1.57 {
        let p = v.tan().atan().0 as f64;
        back(o, 12, "atan(tan(x))", w, p, (p - w).abs(), 0.0045)?;
    }
    Ok(())
}

const BINARY: &[&str] = &["polar coordinates", "root of power", "powi of n and -n", "log of power", "power of log", "text"];

fn binary(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y, n) = (f(a[0]), f(a[1]), a[2] as i32);
    // a point, through polar coordinates
    let r = F32(x).hypot(F32(y));
    let t = F32(y).atan2(F32(x));
    let off = ((r * t.cos()).0 as f64 - x as f64).hypot((r * t.sin()).0 as f64 - y as f64);
    back(o, 0, "hypot, atan2 and cos, sin", x as f64, (r * t.cos()).0 as f64, off / (x as f64).hypot(y as f64), 0.0645)?;
    // powers
    let b = f(a[3]);
    let e = f(a[4]);
    let p = F32(b).powf(F32(e));
    if p.0 > 1e-37 && p.0 < 1e38 {
        let q = p.powf(F32(1.0 / e)).0;
        // an error of the logarithm of the power is divided by the exponent
        let err = (q as f64 / b as f64).ln().abs();
        back(o, 1, "powf(powf(x, n), 1/n)", b as f64, q as f64, err / (1.0 + 1.0 / (e as f64).abs()), 2.7e-3)?;
        if (b.ln()).abs() > 1e-3 {
            let l = p.log(F32(b)).0 as f64;
            back(o, 3, "log(powf(b, n), b)", e as f64, l, (l - e as f64).abs() / (1.0 + e.abs() as f64) * (b as f64).ln().abs().min(1.0), 1.7e-3)?;
        }
    }
    let x = f(a[5]).abs();
    if b.ln().abs() > 1e-3 {
        let q = F32(b).powf(F32(x).log(F32(b))).0;
        back(o, 4, "powf(b, log(x, b))", x as f64, q as f64, (q as f64 / x as f64).ln().abs() * (b as f64).ln().abs().min(1.0), 2.8e-3)?;
    }
    let (p, q) = (F32(b).powi(n).0, F32(b).powi(-n).0);
    if p.abs() > 1e-37 && p.abs() < 1e37 {
        let e = p as f64 * q as f64 - 1.0;
        back(o, 2, "powi(x, n) powi(x, -n)", b as f64, p as f64 * q as f64, e.abs() / (1.0 + n.unsigned_abs() as f64), 2e-6)?;
    }
    Ok(())
}

fn text(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    o.class(0);
    for t in [format!("{}", F32(x)), format!("{:e}", F32(x)), format!("{:E}", F32(x))] {
        let back: Result<F32, _> = t.parse();
        ensure!(back.as_ref().is_ok_and(|b| if x.is_nan() { b.is_nan() } else { same_bits(b.0, x) }), "{x:?} written as {t} and read as {back:?}");
    }
    Ok(())
}

fn vectors(a: &[u32], o: &mut Obs) -> Verdict {
    let c: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    let (u, v, k) = (F32x3::from((c[0], c[1], c[2])), F32x3::from((c[3], c[4], c[5])), c[6]);
    let scale = |i: usize| (c[i].abs() as f64).max(c[i + 3].abs() as f64);
    let mut w = u;
    w += v;
    w -= v;
    let mut d = u;
    d *= k;
    d /= k;
    for (i, (((&p, &q), &x), (&m, &n))) in ((u + v) - v).to_array().iter().zip(&w.to_array()).zip(&u.to_array()).zip(((u * k) / k).to_array().iter().zip(&d.to_array())).enumerate() {
        for p in [p, q] {
            back(o, 0, "u + v - v", x as f64, p as f64, (p as f64 - x as f64).abs() / scale(i).max(1e-30), 3e-7)?;
        }
        for m in [m, n] {
            back(o, 1, "u k / k", x as f64, m as f64, (m as f64 - x as f64).abs() / (x.abs() as f64).max(1e-30), 3e-7)?;
        }
    }
    // in the plane, and in integers, where it is exact
    let (s, t) = (F32x2::from((c[0], c[1])), F32x2::from((c[3], c[4])));
    for (i, (&p, &x)) in ((s + t) - t).to_array().iter().zip(&s.to_array()).enumerate() {
        back(o, 0, "u + v - v", x as f64, p as f64, (p as f64 - x as f64).abs() / scale(i).max(1e-30), 3e-7)?;
    }
    for (&p, &x) in ((s * k) / k).to_array().iter().zip(&s.to_array()) {
        back(o, 1, "u k / k", x as f64, p as f64, (p as f64 - x as f64).abs() / (x.abs() as f64).max(1e-30), 3e-7)?;
    }
    let i = |j: usize| a[j] as i32 >> 2;
    let (p, q) = (I32x3::from((i(0), i(1), i(2))), I32x3::from((i(3), i(4), i(5))));
    ensure!((p + q) - q == p && (p - q) + q == p, "{p:?} + {q:?} - {q:?}");
    let (p, q) = (I32x2::from((i(0), i(1))), I32x2::from((i(3), i(4))));
    ensure!((p + q) - q == p && (p - q) + q == p, "{p:?} + {q:?} - {q:?}");
    let g = |j: usize| (a[j] as i16) >> 8;
    let m = if g(6) == 0 { 1 } else { g(6) };
    let p = I16x3::from((g(0), g(1), g(2)));
    ensure!((p * m) / m == p, "{p:?} * {m} / {m}");
    Ok(())
}

const QUATERNIONS: &[&str] = &["rotated there and back", "inv of inv", "axis_angle there and back", "from one vector to the other and back", "added and taken away"];

fn quaternions(a: &[u32], o: &mut Obs) -> Verdict {
    let c: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    let q = Quaternion::new(c[0], c[1], c[2], c[3]);
    let v = F32x3::from((c[4], c[5], c[6]));
    let n = q.norm() as f64;
    let len = v.to_array().iter().map(|&x| x as f64 * x as f64).sum::<f64>().sqrt();
    if n < 1e-15 || len < 1e-10 {
        o.trivial();
        return Ok(());
    }
    let off = |p: &[f32], k: f64, q: &[f32]| p.iter().zip(q).map(|(&p, &q)| (p as f64 - k * q as f64).powi(2)).sum::<f64>().sqrt();
    let r = q.conj().rotate(q.rotate(v)).to_array();
    back(o, 0, "conj(q) rotating what q rotated", n, r[0] as f64, off(&r, n * n, &v.to_array()) / (n * n * len), 2e-6)?;
    let far = 2f32.powi(a[11] as i32);
    let i = (q * far).inv().inv().scale(1.0 / far).to_array();
    let k = i.iter().zip(&c).map(|(&i, &c)| i as f64 * c as f64).sum::<f64>() / n;
    back(o, 1, "inv(inv(q)) of a quaternion of this norm", n * far as f64 * far as f64, i[0] as f64, (k - 1.0).abs(), 0.26)?;
    ensure!(off(&i, k, &c[..4]) / n.sqrt() < 2e-6, "inv(inv(q)) of {q:?} = {i:?}: another direction, at {far}");
    // a turn and its reverse, about a unit axis
    let m = 1.0 / len;
    let axis = F32x3::from(((c[4] as f64 * m) as f32, (c[5] as f64 * m) as f32, (c[6] as f64 * m) as f32));
    let theta = c[7];
    let p = Quaternion::axis_angle(axis, theta) * Quaternion::axis_angle(axis, -theta);
    back(o, 2, "axis_angle by an angle and by its opposite", theta as f64, p.w() as f64, off(&p.to_array(), 1.0, &[1.0, 0.0, 0.0, 0.0]), 2.4e-3)?;
    // from u to v, and from v to u
    let u = F32x3::from((c[8], c[9], c[10]));
    let lu = u.to_array().iter().map(|&x| x as f64 * x as f64).sum::<f64>().sqrt();
    let dot = u.to_array().iter().zip(&v.to_array()).map(|(&x, &y)| x as f64 * y as f64).sum::<f64>();
    if lu > 1e-10 && dot > -0.9 * lu * len {
        let (p, r) = (Quaternion::from_two_vectors(u, v), Quaternion::from_two_vectors(v, u).conj());
        back(o, 3, "from_two_vectors(u, v) and conj(from_two_vectors(v, u))", p.w() as f64, r.w() as f64, off(&p.to_array(), 1.0, &r.to_array()), 2e-6)?;
    }
    let (s, t) = ((q + p) - p, q - q);
    back(o, 4, "q + p - p", q.w() as f64, s.w() as f64, off(&s.to_array(), 1.0, &c[..4]) / n.sqrt().max(1.0), 1e-6)?;
    ensure!(t.to_array() == [0.0; 4], "{q:?} - itself = {t:?}");
    Ok(())
}

const EULER: &[&str] = &["Euler angles of rotations by Euler angles", "rotation by the Euler angles of a rotation"];

/// Roll, pitch and yaw, as exact as f32 holds it.
fn rotation(r: f64, p: f64, y: f64) -> [f32; 4] {
    let ((sr, cr), (sp, cp), (sy, cy)) = ((r / 2.0).sin_cos(), (p / 2.0).sin_cos(), (y / 2.0).sin_cos());
    [cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy].map(|x| x as f32)
}

fn euler(a: &[u32], o: &mut Obs) -> Verdict {
    let (r, p, y) = (f(a[0]) as f64, f(a[1]) as f64, f(a[2]) as f64);
    let e = Quaternion::from(rotation(r, p, y)).to_euler();
    let turn = |a: f32, b: f64| circ(a as f64, b, TAU);
    let axis = |v: (f32, f32, f32), t: f32| Quaternion::axis_angle(F32x3::from(v), t);
    let q = axis((0.0, 0.0, 1.0), y as f32) * axis((0.0, 1.0, 0.0), p as f32) * axis((1.0, 0.0, 0.0), r as f32);
    let g = q.to_euler();
    for e in [e, g] {
        back(o, 0, "Euler angles of the rotation by them", p, e.1 as f64, turn(e.0, r).max((e.1 as f64 - p).abs()).max(turn(e.2, y)), 0.06)?;
    }
    let w = Quaternion::from(rotation(e.0 as f64, e.1 as f64, e.2 as f64)).to_array();
    let z = rotation(r, p, y);
    let d = |s: f64| w.iter().zip(&z).map(|(&w, &z)| (w as f64 - s * z as f64).powi(2)).sum::<f64>().sqrt();
    back(o, 1, "the rotation by the Euler angles of a rotation", z[0] as f64, w[0] as f64, d(1.0).min(d(-1.0)), 0.0115)
}

fn main() {
    let mut run = Run::new("C38", "an operation and its inverse, one after the other; trivial: NaN, and vectors and quaternions next to zero");
    run.assume("the bounds are sums of those of the two operations; where an operation has no inverse (poles, ends of its range, opposite vectors) nothing is asked");
    let step = run.amount(32, 1);
    let m = Mon::new("one argument").classes(UNARY).metrics(&UNARY[..13]);
    run.enumerate(&m, (1 << 32) / step, |i, v| v.push((i * step + i % step) as u32), unary);
    let m = Mon::new("several arguments").fmt("ffifff").classes(&BINARY[..5]).metrics(&BINARY[..5]);
    run.random(&m, run.amount(20_000_000, 1_000_000_000), |r, v| {
        let far = 2f32.powi(r.range(-48, 48) as i32);
        let (x, y) = (r.log(-12, 12) * far, r.log(-12, 12) * far);
        let n = if r.chance(3) { r.range(-6, 6) } else { r.range(-60, 60) };
        let b = r.pick(&[(-4, 5), (-30, 30), (-122, 124)]);
        let b = r.log(b.0, b.1).abs();
        let e = if r.chance(4) { r.log(-12, 0) } else if r.chance(4) { r.pick(&[1.0, -1.0, 2.0, 0.5, 3.0, -2.0, -0.5, 10.0, 0.1]) } else { r.log(-4, 5) };
        v.extend([x.to_bits(), y.to_bits(), n as i32 as u32, b.to_bits(), e.to_bits(), r.log(-123, 126).to_bits()]);
    }, binary);
    let m = Mon::new("text").classes(&["written and read"]);
    run.random(&m, run.amount(3_000_000, 100_000_000), |r, v| v.push(if r.chance(2) { r.u32() } else { r.hostile().to_bits() }), text);
    let m = Mon::new("vectors").classes(&["u + v - v", "u k / k"]).metrics(&["u + v - v", "u k / k"]);
    run.random(&m, run.amount(10_000_000, 300_000_000), |r, v| {
        let [far, k] = [60, 40].map(|k| 2f32.powi(r.range(-k, k) as i32));
        (0..6).for_each(|_| v.push((number(r) * far).to_bits()));
        let n = number(r);
        v.push((if n == 0.0 { 1.0 } else { n } * k).to_bits());
    }, vectors);
    let m = Mon::new("quaternions").fmt("fffffffffffi").classes(QUATERNIONS).metrics(QUATERNIONS);
    run.random(&m, run.amount(10_000_000, 300_000_000), |r, v| {
        let zoom = |r: &mut Rng, k: i64| if r.chance(2) { 1.0 } else { 2f32.powi(r.range(-k, k) as i32) };
        let [far, ku, kv] = [zoom(r, 20), zoom(r, 15), zoom(r, 15)];
        (0..4).for_each(|_| v.push((if r.chance(8) { 0.0 } else { r.log(-3, 3) } * far).to_bits()));
        let near = r.chance(3);
        (0..3).for_each(|_| v.push((number(r) * kv).to_bits()));
        v.push(r.uniform(-7.0, 7.0).to_bits());
        for i in 0..3 {
            v.push(if near { (f(v[4 + i]) * r.uniform(0.9, 1.1)).to_bits() } else { (number(r) * ku).to_bits() });
        }
        v.push(r.range(-36, 36) as u32);
    }, quaternions);
    let m = Mon::new("Euler angles").classes(EULER).metrics(EULER);
    run.random(&m, run.amount(10_000_000, 300_000_000), |r, v| {
        let t = |r: &mut Rng, k: f64| if r.chance(5) { r.range(-6, 6) as f32 * (k / 6.0) as f32 } else { r.uniform(-k as f32, k as f32) };
        v.extend([t(r, PI).to_bits(), t(r, FRAC_PI_2 - 0.15).to_bits(), t(r, PI).to_bits()]);
    }, euler);
    run.finish()
}

/// Zero, or between 2^-12 and 2^12.
fn number(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 | 2 => r.range(-20, 20) as f32,
        3 => r.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, 1e-3, -1e-3, 3e-4, 1e3]),
        _ => r.log(-12, 12),
    }
}
