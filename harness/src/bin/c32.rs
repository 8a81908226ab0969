//! C32: scaling by powers of two and mirroring commute with the operations, exactly.
use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{F32x2, F32x3, Vector};
use micromath::Quaternion;
use mmverif::{ensure, spec::*, Mon, Obs, Rng, Run, Verdict, F32Ext, F32};

/// The same number; NaN counts as one, and so does zero.
fn eq(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

macro_rules! laws {
    ($o:expr; $($class:literal $name:literal $a:expr => $b:expr),* $(,)?) => { $({
        let (a, b): (f32, f32) = ($a, $b);
        $o.class($class);
        ensure!(eq(a, b), "{}: {a:?} is not {b:?}", $name);
    })* };
}

fn mirror(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    let (p, n) = (F32(x), F32(-x));
    laws!(o;
        0 "floor(-x) = -ceil(x)" n.floor().0 => -p.ceil().0, 0 "trunc(-x) = -trunc(x)" n.trunc().0 => -p.trunc().0,
        0 "round(-x) = -round(x)" n.round().0 => -p.round().0, 0 "fract(-x) = -fract(x)" n.fract().0 => -p.fract().0,
        0 "inv(-x) = -inv(x)" n.inv().0 => -p.inv().0, 0 "recip(-x) = -recip(x)" n.recip().0 => -p.recip().0,
        0 "asin(-x) = -asin(x)" n.asin().0 => -p.asin().0, 0 "atan(-x) = -atan(x)" n.atan().0 => -p.atan().0,
        0 "atan_norm(-x) = -atan_norm(x)" n.atan_norm().0 => -p.atan_norm().0, 0 "cosh(-x) = cosh(x)" n.cosh().0 => p.cosh().0,
        0 "abs(-x) = abs(x)" n.abs().0 => p.abs().0, 0 "signum(-x) = -signum(x)" n.signum().0 => -p.signum().0,
    );
    Ok(())
}

fn scale1(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    let (p, two, four) = (F32(x), F32(x * 2.0), F32(x * 4.0));
    let ok = |v: f32| v.is_normal();
    if !ok(x) || !ok(four.0) {
        o.trivial();
        return Ok(());
    }
    laws!(o; 0 "sqrt(4 x) = 2 sqrt(x)" four.sqrt().0 => 2.0 * p.sqrt().0, 1 "invsqrt(4 x) = invsqrt(x) / 2" four.invsqrt().0 => 0.5 * p.invsqrt().0);
    // the results, and what a step of refinement may need
    if x.abs() < 1e37 {
        laws!(o; 2 "inv(2 x) = inv(x) / 2" two.inv().0 => 0.5 * p.inv().0, 3 "recip(2 x) = recip(x) / 2" two.recip().0 => 0.5 * p.recip().0);
    }
    Ok(())
}

/// Numbers x, y and a power of two.
fn scale2(a: &[u32], o: &mut Obs) -> Verdict {
    // both are scaled to begin with
    let (b, k) = (f(a[3]), f(a[2]) / f(a[3]));
    let (x, y) = (b * f(a[0]), b * f(a[1]));
    let (v, w, kv, kw) = (F32(x), F32(y), F32(k * x), F32(k * y));
    // the square root of zero is not quite zero
    if x == 0.0 && y == 0.0 {
        o.trivial();
        return Ok(());
    }
    laws!(o;
        0 "hypot(k x, k y) = k hypot(x, y)" kv.hypot(kw).0 => k * v.hypot(w).0, 0 "hypot(y, x) = hypot(x, y)" w.hypot(v).0 => v.hypot(w).0,
        0 "hypot(-x, y) = hypot(x, y)" F32(-x).hypot(w).0 => v.hypot(w).0, 0 "hypot(x, -y) = hypot(x, y)" v.hypot(F32(-y)).0 => v.hypot(w).0,
        1 "atan2(k y, k x) = atan2(y, x)" kw.atan2(kv).0 => w.atan2(v).0, 1 "atan2_norm(k y, k x) = atan2_norm(y, x)" F32Ext::atan2_norm(k * y, k * x) => F32Ext::atan2_norm(y, x),
    );
    if y != 0.0 {
        laws!(o;
            2 "div_euclid(k x, k y) = div_euclid(x, y)" kv.div_euclid(kw).0 => v.div_euclid(w).0, 2 "div_euclid(x, -y) = -div_euclid(x, y)" v.div_euclid(F32(-y)).0 => -v.div_euclid(w).0,
            3 "rem_euclid(k x, k y) = k rem_euclid(x, y)" kv.rem_euclid(kw).0 => k * v.rem_euclid(w).0, 3 "rem_euclid(x, -y) = rem_euclid(x, y)" v.rem_euclid(F32(-y)).0 => v.rem_euclid(w).0,
        );
    }
    Ok(())
}

fn powers(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, n) = (f(a[0]), a[1] as i32);
    let sign = if n % 2 == 0 { 1.0 } else { -1.0 };
    laws!(o; 0 "powi(-x, n) = (-1)^n powi(x, n)" F32(-x).powi(n).0 => sign * F32(x).powi(n).0);
    // the nearest float of a large n may be even
    let e = n as f32;
    let sign = if e as i64 % 2 == 0 { 1.0 } else { -1.0 };
    if x != 0.0 {
        laws!(o; 1 "powf(-x, n) = (-1)^n powf(x, n)" F32(-x).powf(F32(e)).0 => sign * F32(x).powf(F32(e)).0);
    }
    // (2 x)^n is 2^n x^n, while nothing on the way overflows or underflows
    if n.abs() <= 8 && x != 0.0 && (-12..12).contains(&(((x.to_bits() >> 23 & 255) as i32) - 127)) {
        laws!(o; 2 "powi(2 x, n) = 2^n powi(x, n)" F32(2.0 * x).powi(n).0 => 2f32.powi(n) * F32(x).powi(n).0);
    }
    Ok(())
}

fn v3(c: &[f32]) -> F32x3 {
    F32x3::from((c[0], c[1], c[2]))
}
fn v2(c: &[f32]) -> F32x2 {
    F32x2::from((c[0], c[1]))
}

fn all(name: &str, a: &[f32], b: &[f32]) -> Verdict {
    ensure!(a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(*a, *b)), "{name}: {a:?} is not {b:?}");
    Ok(())
}

/// Components of two vectors, and a power of two.
fn vectors(a: &[u32], o: &mut Obs) -> Verdict {
    let (b, k) = (f(a[7]), f(a[6]) / f(a[7]));
    // products of four components, and squares of their differences, have to stay in range
    let four = [a[6], a[7]].iter().all(|&k| (0.015..=131072.0).contains(&f(k)));
    let c: Vec<f32> = a[..6].iter().map(|&w| b * f(w)).collect();
    let (ks, minus): (Vec<f32>, Vec<f32>) = (c.iter().map(|x| k * x).collect(), c.iter().map(|x| -x).collect());
    let (u, v, ku, kv, mu, mv) = (v3(&c), v3(&c[3..]), v3(&ks), v3(&ks[3..]), v3(&minus), v3(&minus[3..]));
    let (s, t, ks2, kt, ms) = (v2(&c), v2(&c[3..]), v2(&ks), v2(&ks[3..]), v2(&minus));
    if c[..3] == [0.0; 3] || c[..2] == [0.0; 2] || c[..3] == c[3..] || c[..2] == c[3..5] {
        // no length, or no distance
        o.trivial();
        return Ok(());
    }
    laws!(o;
        0 "|k u| = k |u|" ku.magnitude() => k * u.magnitude(), 0 "|-u| = |u|" mu.magnitude() => u.magnitude(),
        0 "|k s| = k |s| in 2D" ks2.magnitude() => k * s.magnitude(), 0 "|-s| = |s| in 2D" ms.magnitude() => s.magnitude(),
        0 "|k u|^2 = k^2 |u|^2" ku.magnitude_sq() => k * (k * u.magnitude_sq()),
        1 "distance(v, u) = distance(u, v)" v.distance(u) => u.distance(v), 1 "distance(-u, -v) = distance(u, v)" mu.distance(mv) => u.distance(v),
        2 "(k u).v = k (u.v)" ku.dot(v) => k * u.dot(v), 2 "v.u = u.v" v.dot(u) => u.dot(v), 2 "t.s = s.t in 2D" ks2.dot(t) => k * t.dot(s),
        2 "perpendicular dot" ks2.perpendicular_dot(t) => k * -t.perpendicular_dot(s),
    );
    // the squares of what is left of nearly equal components
    if a[6..8].iter().all(|&k| f(k) > 5e-8) {
        laws!(o; 6 "distance(k u, k v) = k distance(u, v)" ku.distance(kv) => k * u.distance(v), 6 "distance in 2D" ks2.distance(kt) => k * t.distance(s));
    }
    o.class(3);
    let neg = |v: F32x3| v.to_array().map(|x| -x);
    all("v x u = -(u x v)", &v.cross(u).to_array(), &neg(u.cross(v)))?;
    all("(k u) x v = k (u x v)", &ku.cross(v).to_array(), &(u.cross(v) * k).to_array())?;
    if u.magnitude() != 0.0 {
        o.class(4);
        all("normalized(k u) = normalized(u)", &ku.normalized().to_array(), &u.normalized().to_array())?;
        all("normalized(-u) = -normalized(u)", &mu.normalized().to_array(), &neg(u.normalized()))?;
    }
    if s.magnitude() != 0.0 {
        all("normalized(k s) = normalized(s) in 2D", &ks2.normalized().to_array(), &s.normalized().to_array())?;
    }
    if four && u.magnitude() != 0.0 && v.magnitude() != 0.0 {
        o.class(5);
        let q = Quaternion::from_two_vectors(u, v).to_array();
        all("rotation from k u to k v", &Quaternion::from_two_vectors(ku, kv).to_array(), &q)?;
        all("rotation from k u to v", &Quaternion::from_two_vectors(ku, v).to_array(), &q)?;
    }
    Ok(())
}

/// Two quaternions and a power of two.
fn quaternions(a: &[u32], o: &mut Obs) -> Verdict {
    let (b, k) = (f(a[9]), f(a[8]) / f(a[9]));
    // products of three components and what is left of their differences
    let three = [a[8], a[9]].iter().all(|&k| (1e-6..=1e6).contains(&f(k)));
    let c: Vec<f32> = a[..8].iter().map(|&w| b * f(w)).collect();
    let q = Quaternion::new(c[0], c[1], c[2], c[3]);
    let p = Quaternion::new(c[4], c[5], c[6], c[7]);
    let kq = Quaternion::new(k * c[0], k * c[1], k * c[2], k * c[3]);
    let mq = Quaternion::new(-c[0], -c[1], -c[2], -c[3]);
    let v = v3(&c[4..]);
    if q.norm() == 0.0 {
        o.trivial();
        return Ok(());
    }
    laws!(o;
        0 "|k q| = k |q|" kq.magnitude() => k * q.magnitude(), 0 "norm(k q) = k^2 norm(q)" kq.norm() => k * (k * q.norm()),
        0 "|-q| = |q|" mq.magnitude() => q.magnitude(), 0 "|conj q| = |q|" q.conj().magnitude() => q.magnitude(),
        0 "(k q).p = k (q.p)" kq.dot(p) => k * q.dot(p), 0 "p.q = q.p" p.dot(q) => q.dot(p),
    );
    o.class(1);
    all("(k q) p = k (q p)", &(kq * p).to_array(), &(q * p).scale(k).to_array())?;
    all("p (k q) = k (p q)", &(p * kq).to_array(), &(p * q).scale(k).to_array())?;
    all("(-q) rotates as q", &mq.rotate(v).to_array(), &q.rotate(v).to_array())?;
    if three {
        o.class(4);
        all("rotate(k v) = k rotate(v)", &q.rotate(v * k).to_array(), &(q.rotate(v) * k).to_array())?;
        all("(k q) rotate(v) = k^2 q rotate(v)", &kq.rotate(v).to_array(), &(q.rotate(v) * k * k).to_array())?;
    }
    if q.norm() != 0.0 {
        o.class(2);
        all("normalize(k q) = normalize(q)", &kq.normalize().to_array(), &q.normalize().to_array())?;
        all("inv(k q) = inv(q) / k", &kq.inv().to_array(), &q.inv().scale(1.0 / k).to_array())?;
        all("inv(conj q) = conj(inv q)", &q.conj().inv().to_array(), &q.inv().conj().to_array())?;
        all("normalize(-q) = -normalize(q)", &mq.normalize().to_array(), &q.normalize().to_array().map(|x| -x))?;
    }
    o.class(3);
    let angle = f(a[0]);
    let (r, mr) = (Quaternion::axis_angle(v, angle), Quaternion::axis_angle(v * k, angle));
    ensure!(eq(r.w(), mr.w()), "axis_angle(k v, t): real part {:?}, not {:?}", mr.w(), r.w());
    all("axis_angle(k v, t)", &mr.to_array()[1..], &r.scale(k).to_array()[1..])
}

/// A sample (by seed and length) and a power of two.
fn samples(a: &[u32], o: &mut Obs) -> Verdict {
    let (n, b, k) = (a[1] as usize, f(a[3]), f(a[2]) / f(a[3]));
    let mut r = Rng::new(a[0] as u64);
    let kind = r.below(4);
    let base = number(&mut r);
    let s: Vec<f32> = (0..n)
        .map(|_| match kind {
            0 => number(&mut r),
            1 => r.range(-20, 20) as f32,
            2 => base + r.uniform(-1.0, 1.0) * if r.chance(10) { 30.0 } else { 0.01 },
            _ => base,
        })
        .map(|x| b * x)
        .collect();
    let (ks, ms): (Vec<f32>, Vec<f32>) = (s.iter().map(|x| k * x).collect(), s.iter().map(|x| -x).collect());
    let (s, ks, ms) = (s.as_slice(), ks.as_slice(), ms.as_slice());
    laws!(o;
        0 "mean(k s) = k mean(s)" ks.iter().copied().mean() => k * s.iter().copied().mean(), 0 "mean(-s) = -mean(s)" ms.iter().copied().mean() => -s.iter().copied().mean(),
        1 "variance(k s) = k^2 variance(s)" ks.variance() => k * (k * s.variance()), 1 "variance(-s) = variance(s)" ms.variance() => s.variance(),
    );
    let far = 2f32.powi(r.range(-90, 90) as i32) / b;
    laws!(o; 3 "mean(k s) = k mean(s), k out of the range of the variance" s.iter().map(|x| far * x).mean() => far * s.iter().copied().mean());
    // the square root of a vanishing variance does not scale
    if s.variance() > 0.0 {
        laws!(o; 1 "stddev(k s) = k stddev(s)" ks.stddev() => k * s.stddev(), 1 "stddev(-s) = stddev(s)" ms.stddev() => s.stddev());
    }
    if n < 2 || s.variance() == 0.0 {
        return Ok(());
    }
    o.class(2);
    for t in [2.0, r.uniform(0.3, 2.5), 1.0] {
        let kept: Vec<f32> = s.trim_at(t).collect();
        all("trim of k s", &ks.trim_at(t).collect::<Vec<_>>(), &kept.iter().map(|x| k * x).collect::<Vec<_>>())?;
        all("trim of -s", &ms.trim_at(t).collect::<Vec<_>>(), &kept.iter().map(|x| -x).collect::<Vec<_>>())?;
    }
    Ok(())
}

/// Zero, or between 2^-12 and 2^12.
fn number(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 | 2 => r.range(-20, 20) as f32,
        3 => r.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, 1e-3, -1e-3, 3e-4, 1e3]),
        _ => r.log(-12, 12),
    }
}

fn main() {
    let mut run = Run::new("C32", "arguments together with their mirror images or their multiples by a power of two; components are zero or between 2^-12 and 2^12, at scales between 2^-48 and 2^46 as far as nothing overflows or underflows on the way");
    run.assume("zeros of either sign are one value");
    let step = run.amount(16, 1);
    let m = Mon::new("mirror").classes(&["odd or even"]);
    run.enumerate(&m, (1 << 31) / step, |i, v| v.push((i * step + i % step) as u32), mirror);
    let m = Mon::new("scale").classes(&["sqrt", "invsqrt", "inv", "recip"]);
    run.enumerate(&m, (1 << 32) / step, |i, v| v.push((i * step + i % step) as u32), scale1);
    // two scales, half of them far from one
    fn scales(r: &mut Rng, v: &mut Vec<u32>, lo: i64, hi: i64) {
        for _ in 0..2 {
            let e = if r.chance(2) { r.range(-10, 10) } else { r.range(lo, hi) };
            v.push(2f32.powi(e as i32).to_bits());
        }
    }
    let m = Mon::new("pairs").classes(&["hypot", "atan2", "div_euclid", "rem_euclid"]);
    run.random(&m, run.amount(40_000_000, 1_000_000_000), |r, v| {
        let x = number(r);
        let y = if r.chance(4) { x * r.range(-9, 9) as f32 } else { number(r) };
        v.extend([x.to_bits(), y.to_bits()]);
        scales(r, v, -48, 46);
    }, scale2);
    let m = Mon::new("powers").fmt("fi").classes(&["powi", "powf", "powi of double"]);
    run.random(&m, run.amount(40_000_000, 1_000_000_000), |r, v| {
        let n = if r.chance(2) { r.range(-9, 9) } else if r.chance(2) { r.range(-200, 200) } else { r.u32() as i32 as i64 };
        let x = if r.chance(3) { r.any() } else { number(r) };
        v.extend([x.to_bits(), n as u32]);
    }, powers);
    let m = Mon::new("vectors").classes(&["magnitude", "distance", "dot", "cross", "normalized", "from_two_vectors", "distance, scaled"]);
    run.random(&m, run.amount(15_000_000, 500_000_000), |r, v| {
        for _ in 0..6 {
            v.push(number(r).to_bits());
        }
        scales(r, v, -48, 46);
    }, vectors);
    let m = Mon::new("quaternions").classes(&["magnitude", "products", "normalize, inv", "axis_angle", "rotate"]);
    run.random(&m, run.amount(15_000_000, 500_000_000), |r, v| {
        for _ in 0..8 {
            v.push(number(r).to_bits());
        }
        scales(r, v, -48, 46);
    }, quaternions);
    let m = Mon::new("samples").fmt("uuff").classes(&["mean", "variance, stddev", "trim", "mean of extremes"]);
    run.random(&m, run.amount(2_000_000, 60_000_000), |r, v| {
        let n = if r.chance(30) { r.below(300) } else { r.below(20) };
        v.extend([r.u32(), n as u32]);
        scales(r, v, -24, 48);
    }, samples);
    run.finish()
}
