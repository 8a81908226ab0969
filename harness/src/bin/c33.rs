//! C33: operations that mean the same agree.
use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{Component, F32x2, F32x3, Vector, Vector2d, Vector3d};
use micromath::Quaternion;
use mmverif::{ensure, spec::*, F32Ext, Mon, Obs, Rng, Run, Verdict, F32};

/// Relative to the larger of the two and `scale`.
const TOL: f64 = 2e-6;

fn near(o: &mut Obs, m: usize, name: &str, a: f32, b: f32, scale: f64) -> Verdict {
    let (x, y) = (a as f64, b as f64);
    if x == y || (x.is_nan() && y.is_nan()) {
        o.within(m, 0.0, TOL);
        return Ok(());
    }
    let e = (x - y).abs() / x.abs().max(y.abs()).max(scale);
    ensure!(o.within(m, e, TOL), "{name}: {a:?} and {b:?}");
    Ok(())
}

fn scalars(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    let v = F32(x);
    o.class(if x.is_nan() { 0 } else if x < 0.0 { 1 } else { 2 });
    let (s, c) = (v.sin().0, v.cos().0);
    if c != 0.0 {
        near(o, 0, "tan(x) and sin(x) / cos(x)", v.tan().0, s / c, 0.0)?;
    }
    near(o, 1, "sin_cos(x).0 and sin(x)", v.sin_cos().0 .0, s, 1e-3)?;
    near(o, 1, "sin_cos(x).1 and cos(x)", v.sin_cos().1 .0, c, 1e-3)?;
    near(o, 2, "atan(x) and atan_norm(x) quarter turns", v.atan().0, v.atan_norm().0 * std::f32::consts::FRAC_PI_2, 1e-37)?;
    near(o, 3, "log2(x) and ln(x) / ln 2", v.log2().0, v.ln().0 / std::f32::consts::LN_2, 1e-30)?;
    near(o, 3, "log10(x) and ln(x) / ln 10", v.log10().0, v.ln().0 / std::f32::consts::LN_10, 1e-30)?;
    near(o, 4, "trunc(x) + fract(x) and x", if x.is_finite() { v.trunc().0 + v.fract().0 } else { x }, x, 0.0)?;
    if x.abs() < 1e18 && x.abs() > 1e-18 {
        near(o, 5, "hypot(x, 0) and sqrt(x^2)", v.hypot(F32(0.0)).0, F32(x * x).sqrt().0, 0.0)?;
        near(o, 5, "|(x, 0)| and sqrt(x^2)", F32x2::from((x, 0.0)).magnitude(), F32(x * x).sqrt().0, 0.0)?;
    }
    Ok(())
}

fn pairs(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y) = (f(a[0]), f(a[1]));
    let (v, w) = (F32(x), F32(y));
    let at = v.atan2(w).0;
    let quarters = F32Ext::atan2_norm(x, y) * std::f32::consts::FRAC_PI_2;
    o.class(at.is_nan() as usize);
    // modulo a turn
    let turned = if (quarters - at).abs() > 3.0 { quarters - std::f32::consts::TAU } else { quarters };
    near(o, 0, "atan2(x, y) and atan2_norm(x, y) quarter turns", at, turned, 6.3)?;
    if x > 0.0 && y > 0.0 && y.is_finite() && w.ln().0.abs() > 1e-4 {
        near(o, 1, "log(x, y) and ln(x) / ln(y)", v.log(w).0, v.ln().0 / w.ln().0, 1e-30)?;
    }
    if y != 0.0 && (x / y).abs() < 1e6 && x.abs() < 1e30 && y.abs() < 1e30 && y.abs() > 1e-30 {
        o.class(2);
        // q y + r is x, but for the roundings: the quotient rounded to a whole number counts as one, as in std
        let (q, r) = (v.div_euclid(w).0, v.rem_euclid(w).0);
        let ratio = x as f64 / y as f64;
        let sum = q as f64 * y as f64 + r as f64;
        let whole = (ratio - ratio.round()).abs() <= 1e-6 * ratio.abs().max(1.0);
        let sum = if whole && (sum - x as f64).abs() > 0.5 * y.abs() as f64 { sum - (y.abs() as f64).copysign(sum - x as f64) } else { sum };
        near(o, 2, "div_euclid(x, y) y + rem_euclid(x, y) and x", sum as f32, x, y.abs() as f64)?;
    }
    Ok(())
}

fn list(o: &mut Obs, m: usize, name: &str, a: &[f32], b: &[f32], scale: f64) -> Verdict {
    ensure!(a.len() == b.len(), "{name}: {a:?} and {b:?}");
    for (x, y) in a.iter().zip(b) {
        near(o, m, name, *x, *y, scale)?;
    }
    Ok(())
}

/// Vectors of another type against vectors of f32: lengths and distances are those of the values.
fn typed<C: Component + Into<f32>>(name: &str, c: &[C], o: &mut Obs) -> Verdict
where
    Vector2d<C>: From<(C, C)>,
    Vector3d<C>: From<(C, C, C)>,
{
    let x: Vec<f32> = c.iter().map(|&c| c.into()).collect();
    let (u, v) = (Vector3d::from((c[0], c[1], c[2])), Vector3d::from((c[3], c[4], c[5])));
    let (fu, fv) = (F32x3::from((x[0], x[1], x[2])), F32x3::from((x[3], x[4], x[5])));
    let (s, t) = (Vector2d::from((c[0], c[1])), Vector2d::from((c[3], c[4])));
    let (fs, ft) = (F32x2::from((x[0], x[1])), F32x2::from((x[3], x[4])));
    near(o, 0, name, u.magnitude(), fu.magnitude(), 0.0)?;
    near(o, 0, name, s.magnitude(), fs.magnitude(), 0.0)?;
    near(o, 0, name, u.distance(v), fu.distance(fv), 0.0)?;
    near(o, 0, name, s.distance(t), fs.distance(ft), 0.0)?;
    if [&fu, &fv].iter().all(|w| w.magnitude() > 1e-8 && w.magnitude() < 1e8) {
        list(o, 0, name, &Quaternion::from_two_vectors(u, v).to_array(), &Quaternion::from_two_vectors(fu, fv).to_array(), 1.0)?;
    }
    let q = Quaternion::new(0.5, -0.75, 0.875, 0.25);
    let scale = 2.0 * fu.magnitude() as f64;
    list(o, 0, name, &q.rotate(u).to_array(), &q.rotate(fu).to_array(), scale)?;
    list(o, 0, name, &(q * u).to_array(), &q.rotate(fu).to_array(), scale)?;
    list(o, 0, name, &Quaternion::axis_angle(u, c[3]).to_array(), &Quaternion::axis_angle(fu, x[3]).to_array(), scale)?;
    list(o, 0, name, &Quaternion::from(u).to_array(), &[0.0, x[0], x[1], x[2]], 0.0)
}

fn types(a: &[u32], o: &mut Obs) -> Verdict {
    o.class(0);
    let g = |k: usize| f(a[k]);
    typed("F32 and f32", &[0, 1, 2, 3, 4, 5].map(|k| F32(g(k))), o)?;
    typed("i8 and f32", &[0, 1, 2, 3, 4, 5].map(|k| (a[k] >> 9) as i8), o)?;
    typed("u8 and f32", &[0, 1, 2, 3, 4, 5].map(|k| (a[k] >> 9) as u8), o)?;
    typed("i16 and f32", &[0, 1, 2, 3, 4, 5].map(|k| (a[k] >> 7) as i16), o)?;
    typed("u16 and f32", &[0, 1, 2, 3, 4, 5].map(|k| (a[k] >> 7) as u16), o)
}

fn geometry(a: &[u32], o: &mut Obs) -> Verdict {
    let c: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    let (s, t) = (F32x2::from((c[0], c[1])), F32x2::from((c[2], c[3])));
    let (s3, t3) = (F32x3::from(s), F32x3::from(t));
    let zero = F32x3::default();
    o.class(0);
    // the plane is where z = 0
    near(o, 0, "length in 2D and in 3D", s.magnitude(), s3.magnitude(), 0.0)?;
    near(o, 0, "distance in 2D and in 3D", s.distance(t), s3.distance(t3), 0.0)?;
    near(o, 0, "dot in 2D and in 3D", s.dot(t), s3.dot(t3), 1e-37)?;
    near(o, 0, "perpendicular dot and cross", s.perpendicular_dot(t), s3.cross(t3).z, 1e-37)?;
    near(o, 0, "magnitude_sq in 2D and in 3D", s.magnitude_sq(), s3.magnitude_sq(), 1e-37)?;
    near(o, 0, "hypot and length in 2D", F32(c[0]).hypot(F32(c[1])).0, s.magnitude(), 0.0)?;
    near(o, 0, "distance from zero and length", s3.distance(zero), s3.magnitude(), 0.0)?;
    if s.magnitude() > 1e-17 {
        list(o, 0, "normalized in 2D and in 3D", &s.normalized().to_array(), &s3.normalized().to_array()[..2], 0.0)?;
    }
    let (u, v) = (F32x3::from((c[0], c[1], c[2])), F32x3::from((c[3], c[4], c[5])));
    near(o, 1, "u.u and magnitude_sq", u.dot(u), u.magnitude_sq(), 0.0)?;
    near(o, 1, "dot, of the type and of the trait", u.dot(v), Vector::dot(u, v), (u.magnitude() * v.magnitude()) as f64)?;
    near(o, 1, "distance and length of the difference", u.distance(v), (u - v).magnitude(), 0.0)?;
    near(o, 1, "length and square root of magnitude_sq", u.magnitude(), F32(u.magnitude_sq()).sqrt().0, 0.0)?;
    // quaternions of vectors
    let (p, q) = (Quaternion::from(u), Quaternion::from(v));
    let scale = (u.magnitude() * v.magnitude()) as f64;
    near(o, 2, "length of a vector and of its quaternion", u.magnitude(), p.magnitude(), 0.0)?;
    near(o, 2, "dot of vectors and of their quaternions", u.dot(v), p.dot(q), scale)?;
    let w = u.cross(v);
    list(o, 2, "product of the quaternions of vectors, and minus dot, cross", &(p * q).to_array(), &[-u.dot(v), w.x, w.y, w.z], scale)?;
    Ok(())
}

fn rotations(a: &[u32], o: &mut Obs) -> Verdict {
    let c: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    let (p, q) = (Quaternion::new(c[0], c[1], c[2], c[3]), Quaternion::new(c[4], c[5], c[6], c[7]));
    let v = F32x3::from((c[8], c[9], c[10]));
    if p.norm() < 1e-16 || q.norm() < 1e-16 {
        o.trivial();
        return Ok(());
    }
    o.class(0);
    list(o, 0, "q * k and scale", &(q * c[8]).to_array(), &q.scale(c[8]).to_array(), 0.0)?;
    list(o, 0, "k * q and scale", &(c[8] * q).to_array(), &q.scale(c[8]).to_array(), 0.0)?;
    let scale = (p.norm() as f64) * (q.norm() as f64) * v.to_array().iter().map(|x| x.abs() as f64).sum::<f64>();
    list(o, 1, "(p q) rotate and p rotate after q rotate", &(p * q).rotate(v).to_array(), &p.rotate(q.rotate(v)).to_array(), scale)?;
    list(o, 1, "q * v and rotate", &(q * v).to_array(), &q.rotate(v).to_array(), 0.0)?;
    list(o, 1, "q v conj(q) and rotate", &(q * Quaternion::from(v) * q.conj()).to_array()[1..], &q.rotate(v).to_array(), (q.norm() as f64) * v.to_array().iter().map(|x| x.abs() as f64).sum::<f64>())?;
    let h = q.normalize();
    list(o, 2, "the normalized quaternion rotates to the same direction", &h.rotate(v).to_array(), &(q.rotate(v) * (h.norm() / q.norm())).to_array(), v.to_array().iter().map(|x| x.abs() as f64).sum::<f64>())
}

fn alone(a: &[u32], o: &mut Obs) -> Verdict {
    let q = Quaternion::new(f(a[0]), f(a[1]), f(a[2]), f(a[3]));
    let n = q.norm();
    if n < 2e-38 {
        o.trivial();
        return Ok(());
    }
    o.class(if n < 1e-20 { 0 } else if n < 1e20 { 1 } else { 2 });
    near(o, 0, "|q| and the square root of its norm", q.magnitude(), F32(n).sqrt().0, 0.0)?;
    near(o, 0, "q.q and the norm", q.dot(q), n, 0.0)?;
    near(o, 0, "real part of q conj(q) and the norm", (q * q.conj()).w(), n, 0.0)?;
    list(o, 0, "conj(conj(q)) and q", &q.conj().conj().to_array(), &q.to_array(), 0.0)?;
    // the inverse undoes, but for one approximate factor
    let i = q.inv();
    let r = q * i;
    ensure!(r.w() > 0.8 && r.w() < 1.2, "real part of q inv(q) = {:?}", r.w());
    list(o, 1, "imaginary part of q inv(q)", &r.to_array()[1..], &[0.0; 3], 1.0)?;
    list(o, 1, "inv(q) and conj(q) over the norm times the same factor", &i.to_array(), &q.conj().scale(r.w() / n).to_array(), 1.0 / (n as f64).sqrt())?;
    let h = q.normalize();
    let k = h.dot(q) / n;
    list(o, 1, "normalize and q but for one factor", &h.to_array(), &q.scale(k).to_array(), 1.0)
}

fn stats(a: &[u32], o: &mut Obs) -> Verdict {
    let s: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    let var = s.as_slice().variance();
    o.class(0);
    near(o, 0, "stddev and the square root of the variance", s.as_slice().stddev(), F32(var).sqrt().0, 0.0)?;
    near(o, 0, "mean of a slice by value and by reference", s.iter().cloned().mean(), s.iter().map(|x| *x).mean(), 0.0)?;
    macro_rules! ints {
        ($($t:ident),*) => {$({
            let i: Vec<$t> = a.iter().map(|&w| (w >> 7) as $t).collect();
            let x: Vec<f32> = i.iter().map(|&i| i as f32).collect();
            let w: Vec<F32> = x.iter().map(|&x| F32(x)).collect();
            near(o, 1, stringify!($t), i.as_slice().variance(), x.as_slice().variance(), 0.0)?;
            near(o, 1, stringify!($t), i.as_slice().stddev(), x.as_slice().stddev(), 0.0)?;
            near(o, 1, "F32", w.as_slice().variance(), x.as_slice().variance(), 0.0)?;
            for t in [2.0, 1.3, 0.7] {
                let (p, q): (Vec<f32>, Vec<f32>) = (i.as_slice().trim_at(t).map(|i| i as f32).collect(), x.as_slice().trim_at(t).collect());
                ensure!(p == q, "trim_at({t}) of {} keeps {p:?}, of f32 {q:?}", stringify!($t));
                let q: Vec<f32> = w.as_slice().trim_at(t).map(|x| x.0).collect();
                ensure!(p == q, "trim_at({t}) of {} keeps {p:?}, of F32 {q:?}", stringify!($t));
            }
        })*};
    }
    ints!(i8, u8, i16, u16);
    Ok(())
}

/// Zero, or between 2^-12 and 2^12.
fn number(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 | 2 => r.range(-20, 20) as f32,
        3 => r.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, 1e-3, -1e-3, 3e-4, 1e3]),
        _ => r.log(-12, 12),
    }
}

/// A power of two.
fn zoom(r: &mut Rng, k: i64) -> f32 {
    2f32.powi(r.range(-k, k) as i32)
}

fn main() {
    let mut run = Run::new("C33", "two ways to the same value, on the same arguments; components are zero or between 2^-12 and 2^12, times a power of two as far as the quantity stays in range, unless the identity holds for all");
    run.assume("agreement is to 2e-6 of the value, or of the size of the terms where they cancel");
    let step = run.amount(64, 1);
    let m = Mon::new("scalars").classes(&["NaN", "negative", "positive"]).metrics(&["tan", "sin_cos", "atan", "log2, log10", "trunc + fract", "hypot"]);
    run.enumerate(&m, (1 << 32) / step, |i, v| v.push((i * step + i % step) as u32), scalars);
    let m = Mon::new("pairs").classes(&["atan2", "NaN", "Euclidean division"]).metrics(&["atan2", "log", "Euclidean division"]);
    run.random(&m, run.amount(30_000_000, 1_000_000_000), |r, v| {
        let x = r.any();
        let y = if r.chance(2) { r.any() } else { r.related(x) };
        v.extend([x.to_bits(), y.to_bits()]);
    }, pairs);
    let m = Mon::new("types").classes(&["five types"]).metrics(&["difference"]);
    run.random(&m, run.amount(4_000_000, 100_000_000), |r, v| {
        let far = if r.chance(2) { zoom(r, 45) } else { 1.0 };
        (0..6).for_each(|_| v.push((if r.chance(3) { r.log(-12, 12) } else { number(r) } * far).to_bits()))
    }, types);
    let m = Mon::new("geometry").classes(&["vectors"]).metrics(&["2D and 3D", "vectors", "quaternions of vectors"]);
    run.random(&m, run.amount(15_000_000, 500_000_000), |r, v| {
        let far = if r.chance(2) { [zoom(r, 45), zoom(r, 45)] } else { [1.0; 2] };
        (0..6).for_each(|i| v.push((number(r) * far[i / 3]).to_bits()))
    }, geometry);
    let m = Mon::new("rotations").classes(&["quaternions"]).metrics(&["algebra", "rotation", "inverse"]);
    run.random(&m, run.amount(15_000_000, 500_000_000), |r, v| {
        let unit = r.chance(2);
        let far = if r.chance(2) { [zoom(r, 18), zoom(r, 18), zoom(r, 14)] } else { [1.0; 3] };
        for i in 0..11 {
            v.push((if unit { r.uniform(-1.0, 1.0) } else { r.log(-3, 3) } * far[i / 4]).to_bits());
        }
    }, rotations);
    let m = Mon::new("one quaternion").classes(&["small", "ordinary", "large"]).metrics(&["algebra", "inverse"]);
    run.random(&m, run.amount(15_000_000, 500_000_000), |r, v| {
        let (unit, far) = (r.chance(2), zoom(r, 58));
        for _ in 0..4 {
            let x = if r.chance(8) { 0.0 } else if unit { r.uniform(-1.0, 1.0) } else { r.log(-3, 3) };
            v.push((x * far).to_bits());
        }
    }, alone);
    let m = Mon::new("statistics").fmt("u").classes(&["samples"]).metrics(&["f32", "other types"]);
    run.random(&m, run.amount(3_000_000, 100_000_000), |r, v| {
        let n = if r.chance(50) { r.below(200) } else { r.below(12) };
        let (base, k) = (r.u32(), r.pick(&[5u32, 12, 20, 32]));
        (0..n).for_each(|_| v.push(if k == 32 { r.u32() } else { base.wrapping_add(r.u32() >> (32 - k)) }));
    }, stats);
    run.finish()
}
