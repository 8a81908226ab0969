//! C35: exact values at the anchor points, where an approximation is expected to be exact.
use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{F32x2, F32x3, Vector};
use micromath::Quaternion;
use mmverif::{ensure, spec::*, F32Ext, Mon, Obs, Run, Verdict, F32};
use std::f32::consts::{FRAC_PI_2, FRAC_PI_4, PI};

macro_rules! exact {
    ($o:expr; $($class:literal $name:literal $a:expr => $b:expr),* $(,)?) => { $({
        let (a, b): (f32, f32) = ($a, $b);
        $o.class($class);
        ensure!(a == b, "{} is {a:?}, not {b:?}", $name);
    })* };
}

fn near(o: &mut Obs, m: usize, name: &str, a: f32, b: f64, tol: f64) -> Verdict {
    ensure!(o.within(m, (a as f64 - b).abs(), tol), "{name} is {a:?}, not {b:?}");
    Ok(())
}

fn pow2(k: i32) -> f32 {
    2f64.powi(k) as f32
}

/// The exponent of a power of two, and the sign.
fn powers(a: &[u32], o: &mut Obs) -> Verdict {
    let k = a[0] as i32;
    let x = pow2(k) * if a[1] == 0 { 1.0 } else { -1.0 };
    if a[1] == 0 && k % 2 == 0 {
        exact!(o; 0 "sqrt(4^k)" F32(x).sqrt().0 => pow2(k / 2));
    }
    exact!(o; 1 "inv(2^k)" F32(x).inv().0 => pow2(-k) * x.signum());
    near(o, 0, "recip(2^k) 2^k", F32(x).recip().0 * x, 1.0, 1e-6)?;
    for n in -126..=126i32 {
        if (k * n).abs() < 126 {
            exact!(o; 2 "powi(2^k, n)" F32(x).powi(n).0 => pow2(k * n) * if n % 2 == 0 { 1.0 } else { x.signum() });
        }
    }
    let r = (pow2(k / 2) * x.signum(), 2 * (k / 2));
    if r.1.abs() < 120 {
        let x = r.0;
        exact!(o;
            3 "hypot(2^k, 0)" F32(x).hypot(F32(0.0)).0 => x.abs(), 3 "hypot(0, 2^k)" F32(0.0).hypot(F32(x)).0 => x.abs(),
            3 "|(2^k, 0)|" F32x2::from((x, 0.0)).magnitude() => x.abs(), 3 "|(0, 2^k)|" F32x2::from((0.0, x)).magnitude() => x.abs(),
            3 "|(2^k, 0, 0)|" F32x3::from((x, 0.0, 0.0)).magnitude() => x.abs(), 3 "|(0, 2^k, 0)|" F32x3::from((0.0, x, 0.0)).magnitude() => x.abs(),
            3 "|(0, 0, 2^k)|" F32x3::from((0.0, 0.0, x)).magnitude() => x.abs(),
            3 "distance of (1, 2^k, 2) and (1, 0, 2)" F32x3::from((1.0, x, 2.0)).distance(F32x3::from((1.0, 0.0, 2.0))) => x.abs(),
            3 "|2^k k|" Quaternion::new(0.0, 0.0, 0.0, x).magnitude() => x.abs(), 3 "|2^k|" Quaternion::new(x, 0.0, 0.0, 0.0).magnitude() => x.abs(),
        );
        ensure!(F32x3::from((0.0, x, 0.0)).normalized() == F32x3::from((0.0, x.signum(), 0.0)), "normalized (0, {x:?}, 0) is {:?}", F32x3::from((0.0, x, 0.0)).normalized());
        ensure!(F32x2::from((x, 0.0)).normalized() == F32x2::from((x.signum(), 0.0)), "normalized ({x:?}, 0) is {:?}", F32x2::from((x, 0.0)).normalized());
        ensure!(Quaternion::new(0.0, x, 0.0, 0.0).inv() == Quaternion::new(0.0, -1.0 / x, 0.0, 0.0), "inv({x:?} i)");
    }
    Ok(())
}

/// n quarter turns, and a scale.
fn turns(a: &[u32], o: &mut Obs) -> Verdict {
    let n = a[0] as i32;
    let x = (n as f64 * std::f64::consts::FRAC_PI_2) as f32;
    let tol = 1e-6 + 3e-7 * x.abs() as f64;
    let c = [1.0, 0.0, -1.0, 0.0];
    near(o, 0, "cos of quarter turns", F32(x).cos().0, c[n.rem_euclid(4) as usize], tol)?;
    near(o, 1, "sin of quarter turns", F32(x).sin().0, c[(n - 1).rem_euclid(4) as usize], tol)?;
    if n % 2 == 0 {
        near(o, 2, "tan of half turns", F32(x).tan().0, 0.0, tol)?;
        let q = Quaternion::axis_angle(F32x3::from((0.0, 1.0, 0.0)), x);
        near(o, 3, "real part of a rotation by half turns", q.w(), c[(n / 2).rem_euclid(4) as usize], tol)?;
        near(o, 3, "imaginary part of a rotation by half turns", q.y(), c[(n / 2 - 1).rem_euclid(4) as usize], tol)?;
    }
    o.class(0);
    Ok(())
}

/// Directions at multiples of 45 degrees, of every length.
fn compass(a: &[u32], o: &mut Obs) -> Verdict {
    let s = f(a[0]);
    o.class(0);
    for (k, (x, y)) in [(1.0, 0.0), (1.0, 1.0), (0.0, 1.0), (-1.0, 1.0), (-1.0, 0.0), (-1.0, -1.0), (0.0, -1.0), (1.0, -1.0)].into_iter().enumerate() {
        let (x, y): (f32, f32) = (x * s, y * s);
        let want = if k <= 4 { k as f64 } else { k as f64 - 8.0 } * std::f64::consts::FRAC_PI_4;
        // 0 * -1 is -0: just below the axis
        near(o, 0, "atan2 at a multiple of 45 degrees", F32(y + 0.0).atan2(F32(x + 0.0)).0, want, 5e-7)?;
        near(o, 1, "atan2_norm at a multiple of 45 degrees", F32Ext::atan2_norm(y + 0.0, x + 0.0), k as f64 / 2.0, 5e-7)?;
    }
    Ok(())
}

/// Any float.
fn neutral(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    if !x.is_finite() {
        o.trivial();
        return Ok(());
    }
    let v = F32(x);
    exact!(o;
        0 "powi(x, 1)" v.powi(1).0 => x, 0 "powf(x, 0)" v.powf(F32(0.0)).0 => 1.0, 0 "powi(x, 0)" v.powi(0).0 => 1.0, 0 "powf(1, x)" F32(1.0).powf(v).0 => 1.0,
        0 "mul_add(x, 1, 0)" v.mul_add(F32(1.0), F32(0.0)).0 => x, 0 "mul_add(1, 0, x)" F32(1.0).mul_add(F32(0.0), v).0 => x,
        0 "powi(1, n)" F32(1.0).powi(a[0] as i32).0 => 1.0, 0 "mean of one" [x].iter().copied().mean() => x,
    );
    if x.abs() < 1e18 {
        let u = F32x3::from((x, 1.0, -x));
        exact!(o; 1 "powi(x, 2)" v.powi(2).0 => x * x, 1 "variance of two equal" [x, x][..].variance() => 0.0);
        ensure!([x, x, x].as_slice().stddev() <= 1e-18 + 1e-6 * x.abs(), "stddev of three equal");
        ensure!(Quaternion::IDENTITY.rotate(u) == u, "rotation of {u:?} by the identity: {:?}", Quaternion::IDENTITY.rotate(u));
        // half turns about the axes
        for (q, w) in [((0.0, 1.0, 0.0, 0.0), (x, -1.0, x)), ((0.0, 0.0, 1.0, 0.0), (-x, 1.0, x)), ((0.0, 0.0, 0.0, 1.0), (-x, -1.0, -x))] {
            let r = Quaternion::from(q) * u;
            ensure!(r == F32x3::from(w), "half turn {q:?} of {u:?}: {r:?}");
        }
        let q = Quaternion::new(x, 1.0, -x, 0.5);
        ensure!(q * Quaternion::IDENTITY == q && Quaternion::IDENTITY * q == q && q.scale(1.0f32) == q, "times one: {q:?}");
        ensure!((&[x, x, x][..]).trim_at(1.5).count() == 3, "equal values are trimmed");
    }
    Ok(())
}

/// Integer base and exponent: the exact power where f32 can hold it.
fn integers(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, n) = (a[0] as i32 as i64, a[1]);
    match x.checked_pow(n) {
        Some(p) if (-(1 << 24)..=1 << 24).contains(&p) => {
            exact!(o; 0 "powi of integers" F32(x as f32).powi(n as i32).0 => p as f32);
        }
        _ => o.trivial(),
    }
    Ok(())
}

fn points(_: &[u32], o: &mut Obs) -> Verdict {
    exact!(o;
        0 "exp(0)" F32(0.0).exp().0 => 1.0, 0 "exp(-0)" F32(-0.0).exp().0 => 1.0, 0 "cosh(0)" F32(0.0).cosh().0 => 1.0, 0 "cos(0)" F32(0.0).cos().0 => 1.0,
        0 "sin(0)" F32(0.0).sin().0 => 0.0, 0 "tan(0)" F32(0.0).tan().0 => 0.0, 0 "ln(1)" F32(1.0).ln().0 => 0.0, 0 "log2(1)" F32(1.0).log2().0 => 0.0,
        0 "log10(1)" F32(1.0).log10().0 => 0.0, 0 "log(1, 7)" F32(1.0).log(F32(7.0)).0 => 0.0, 0 "atan(0)" F32(0.0).atan().0 => 0.0, 0 "asin(0)" F32(0.0).asin().0 => 0.0,
        0 "sqrt(1)" F32(1.0).sqrt().0 => 1.0, 0 "inv(1)" F32(1.0).inv().0 => 1.0, 0 "powf(1, 1)" F32(1.0).powf(F32(1.0)).0 => 1.0, 0 "atan_norm(1)" F32(1.0).atan_norm().0 => 0.5,
    );
    near(o, 0, "exp(1)", F32(1.0).exp().0, std::f64::consts::E, 3e-7)?;
    near(o, 0, "exp(-1)", F32(-1.0).exp().0, 1.0 / std::f64::consts::E, 1e-7)?;
    near(o, 0, "atan(1)", F32(1.0).atan().0, FRAC_PI_4 as f64, 2e-7)?;
    near(o, 0, "atan(-1)", F32(-1.0).atan().0, -FRAC_PI_4 as f64, 2e-7)?;
    near(o, 0, "atan(inf)", F32(f32::INFINITY).atan().0, FRAC_PI_2 as f64, 2e-7)?;
    near(o, 0, "asin(1)", F32(1.0).asin().0, FRAC_PI_2 as f64, 2e-7)?;
    near(o, 0, "asin(-1)", F32(-1.0).asin().0, -FRAC_PI_2 as f64, 2e-7)?;
    near(o, 0, "acos(1)", F32Ext::acos(1.0f32), 0.0, 2e-7)?;
    near(o, 0, "acos(0)", F32Ext::acos(0.0f32), FRAC_PI_2 as f64, 2e-7)?;
    near(o, 0, "acos(-1)", F32Ext::acos(-1.0f32), PI as f64, 3e-7)?;
    let e = Quaternion::IDENTITY.to_euler();
    ensure!(e == (0.0, 0.0, 0.0), "Euler angles of the identity: {e:?}");
    let h = std::f32::consts::FRAC_1_SQRT_2;
    for (q, k) in [((h, h, 0.0, 0.0), 0), ((h, 0.0, 0.0, h), 2)] {
        let e = Quaternion::from(q).to_euler();
        let e = [e.0, e.1, e.2];
        for i in 0..3 {
            near(o, 0, "Euler angles of a quarter turn", e[i], if i == k { FRAC_PI_2 as f64 } else { 0.0 }, 1e-6)?;
        }
    }
    Ok(())
}

fn main() {
    let mut run = Run::new("C35", "the anchor points: powers of two, quarter turns, directions at multiples of 45 degrees of every length, neutral elements and integer powers");
    let m = Mon::new("powers of two").fmt("iu").classes(&["sqrt", "inv", "powi", "axes"]).metrics(&["recip"]);
    run.enumerate(&m, 2 * 252, |i, v| v.extend([(i as i32 / 2 - 126) as u32, (i % 2) as u32]), powers);
    let m = Mon::new("turns").fmt("i").classes(&["turns"]).metrics(&["cos", "sin", "tan", "axis_angle"]);
    run.enumerate(&m, 5201, |i, v| v.push((i as i32 - 2600) as u32), turns);
    let step = run.amount(32, 1);
    let m = Mon::new("compass").classes(&["directions"]).metrics(&["atan2", "atan2_norm"]);
    run.enumerate(&m, 0x7f7f_ffff / step, |i, v| v.push((1 + i * step + i % step) as u32), compass);
    let m = Mon::new("neutral elements").classes(&["all", "within range"]);
    run.enumerate(&m, (1 << 32) / step, |i, v| v.push((i * step + i % step) as u32), neutral);
    let m = Mon::new("integers").fmt("iu").classes(&["powers"]);
    run.enumerate(&m, 8193 * 25, |i, v| v.extend([((i / 25) as i32 - 4096) as u32, (i % 25) as u32]), integers);
    run.enumerate(&Mon::new("points").fmt("u").classes(&["points"]).metrics(&["angles"]), 1, |_, v| v.push(0), points);
    run.finish()
}
