//! C22: quaternions rotate: the rotation about an axis, between two vectors, of a vector, and its
//! Euler angles.
use micromath::vector::{Component, Vector3d};
use micromath::Quaternion;
use mmverif::{ensure, spec::*, Mon, Obs, Rng, Run, Verdict, F32};
use std::f64::consts::{FRAC_PI_2, TAU};

type V = [f64; 3];
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
/// `q v q*`, by way of `(w² - u·u) v + 2 (u·v) u + 2 w (u × v)`.
fn sandwich(q: [f64; 4], v: V) -> V {
    let (w, u) = (q[0], [q[1], q[2], q[3]]);
    let c = cross(u, v);
    let (s, d) = (w * w - dot(u, u), dot(u, v));
    [0, 1, 2].map(|i| s * v[i] + 2.0 * d * u[i] + 2.0 * w * c[i])
}
fn wide(q: Quaternion) -> [f64; 4] {
    q.to_array().map(|x| x as f64)
}

fn rotate_one<C: Component + Into<f32>>(q: Quaternion, v: Vector3d<C>, o: &mut Obs, metric: usize) -> Verdict {
    let g: [f32; 3] = [v.x.into(), v.y.into(), v.z.into()];
    let (got, op) = (q.rotate(v), q * v);
    ensure!(got.to_array().iter().zip(op.to_array()).all(|(&a, b)| same(a, b)), "{q:?} * {v:?} = {op:?}, rotate gives {got:?}");
    let (qw, vw) = (wide(q), g.map(|x| x as f64));
    if qw.iter().any(|x| x.is_nan()) {
        ensure!(got.to_array().iter().any(|x| x.is_nan()), "rotating {v:?} by {q:?} = {got:?}");
        return Ok(());
    }
    let want = sandwich(qw, vw);
    let n: f64 = qw.iter().map(|x| x * x).sum();
    let size = n * (vw[0].abs() + vw[1].abs() + vw[2].abs());
    if !(n < 1e36 && size < 1e37) || n < 1e-30 || (size < 1e-30 && size != 0.0) {
        o.trivial();
        return Ok(());
    }
    let e = (0..3).map(|i| (got[i] as f64 - want[i]).abs()).fold(0.0, f64::max);
    // six roundings of terms no greater than the norm times the component
    ensure!(o.within(metric, e, size * EPS * 10.0 + 1e-44), "rotating {v:?} by {q:?} = {got:?}, exact {want:?}");
    Ok(())
}

/// Arguments: four of the quaternion, three of the vector.
fn rotate(a: &[u32], o: &mut Obs) -> Verdict {
    let g: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    let q = Quaternion::new(g[0], g[1], g[2], g[3]);
    let n = q.norm();
    o.class(if n.is_nan() { 2 } else if (n - 1.0).abs() < 1e-5 { 0 } else { 1 });
    rotate_one(q, Vector3d { x: g[4], y: g[5], z: g[6] }, o, 0)?;
    rotate_one(q, Vector3d { x: F32(g[4]), y: F32(g[5]), z: F32(g[6]) }, o, 0)?;
    let [x, y, z] = [a[4], a[5], a[6]].map(mmverif_mix);
    rotate_one(q, Vector3d { x: x as i8, y: y as i8, z: z as i8 }, o, 1)?;
    rotate_one(q, Vector3d { x: x as u8, y: y as u8, z: z as u8 }, o, 1)?;
    rotate_one(q, Vector3d { x: x as i16, y: y as i16, z: z as i16 }, o, 1)?;
    rotate_one(q, Vector3d { x: x as u16, y: y as u16, z: z as u16 }, o, 1)
}
fn mmverif_mix(w: u32) -> u32 {
    mmverif::gen::mix(w as u64) as u32
}

fn axis_one<C: Component + Into<f32>>(v: Vector3d<C>, theta: C, o: &mut Obs, metric: usize) -> Verdict {
    let g: [f32; 3] = [v.x.into(), v.y.into(), v.z.into()];
    let t: f32 = theta.into();
    let q = wide(Quaternion::axis_angle(v, theta));
    if !g.iter().all(|x| x.abs() < 1e30) || !(t.abs() <= 8192.0) {
        o.trivial();
        return Ok(());
    }
    let h = t as f64 / 2.0;
    let e = (q[0] - h.cos()).abs();
    ensure!(o.within(metric, e, 0.002), "real part for the angle {t:?} = {}, exact {}", q[0], h.cos());
    for i in 0..3 {
        let want = g[i] as f64 * h.sin();
        let e = (q[i + 1] - want).abs();
        ensure!(o.within(metric + 1, e, 0.002 * (g[i] as f64).abs() + 1e-44), "component {i} for the axis {v:?}, angle {t:?} = {}, exact {want}", q[i + 1]);
    }
    Ok(())
}
fn axis(a: &[u32], o: &mut Obs) -> Verdict {
    let g: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    o.class(if g[3].abs() <= 3.1415927 { 0 } else { 1 });
    axis_one(Vector3d { x: g[0], y: g[1], z: g[2] }, g[3], o, 0)?;
    axis_one(Vector3d { x: F32(g[0]), y: F32(g[1]), z: F32(g[2]) }, F32(g[3]), o, 0)?;
    let [x, y, z, t] = [a[0], a[1], a[2], a[3]].map(mmverif_mix);
    axis_one(Vector3d { x: x as i8, y: y as i8, z: z as i8 }, t as i8, o, 0)?;
    axis_one(Vector3d { x: x as u8, y: y as u8, z: z as u8 }, t as u8, o, 0)?;
    axis_one(Vector3d { x: x as i16, y: y as i16, z: z as i16 }, (t as i16) >> 3, o, 0)?;
    axis_one(Vector3d { x: x as u16, y: y as u16, z: z as u16 }, (t as u16) >> 3, o, 0)
}

fn between_one<C: Component + Into<f32>>(u: Vector3d<C>, v: Vector3d<C>, o: &mut Obs) -> Verdict {
    let a: [f32; 3] = [u.x.into(), u.y.into(), u.z.into()];
    let b: [f32; 3] = [v.x.into(), v.y.into(), v.z.into()];
    let (a, b) = (a.map(|x| x as f64), b.map(|x| x as f64));
    let (la, lb) = (len(a), len(b));
    if !(1e-6..=1e6).contains(&la) || !(1e-6..=1e6).contains(&lb) {
        o.trivial();
        return Ok(());
    }
    let (a, b) = (a.map(|x| x / la), b.map(|x| x / lb));
    let q = wide(Quaternion::from_two_vectors(u, v));
    let m = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!(o.within(0, (m - 1.0).abs(), 0.0355), "from {u:?} to {v:?}: {q:?} of magnitude {m}");
    let q = q.map(|x| x / m);
    let r = sandwich(q, a);
    let off = len([r[0] - b[0], r[1] - b[1], r[2] - b[2]]);
    ensure!(o.within(1, off, 2e-3), "from {u:?} to {v:?}: {q:?} takes the first direction {a:?} to {r:?} instead of {b:?}");
    // smallest: by no more than the angle between them, about an axis perpendicular to both
    let c = dot(a, b);
    o.class(if c > 0.9999 { 0 } else if c < -0.999_999 { 2 } else if c < -0.99 { 3 } else { 1 });
    let want = ((1.0 + c).max(0.0) / 2.0).sqrt();
    ensure!(o.within(2, (q[0] - want).abs(), 2e-3), "from {u:?} to {v:?}: {q:?}, the half angle has the cosine {want}");
    let i = [q[1], q[2], q[3]];
    let t = dot(i, a).abs().max(dot(i, b).abs());
    ensure!(o.within(3, t, 2e-3), "from {u:?} to {v:?}: the axis of {q:?} is not perpendicular to them");
    Ok(())
}
/// Arguments: two vectors, and what makes the second of the first: 0 nothing, 1 opposite,
/// 2 almost opposite, 3 the same, 4 almost the same.
fn between(a: &[u32], o: &mut Obs) -> Verdict {
    let g: Vec<f32> = a[..6].iter().map(|&w| f(w)).collect();
    let u = [g[0], g[1], g[2]];
    let mut v = [g[3], g[4], g[5]];
    let lv = v.iter().map(|x| x.abs()).fold(0.0, f32::max);
    match a[6] {
        1 => v = u.map(|x| -x * lv),
        2 => v = [0, 1, 2].map(|i| -u[i] + v[i] * 2f32.powi(-(a[7] as i32))),
        3 => v = u.map(|x| x * lv),
        4 => v = [0, 1, 2].map(|i| u[i] + v[i] * 2f32.powi(-(a[7] as i32))),
        _ => {}
    }
    between_one(Vector3d { x: u[0], y: u[1], z: u[2] }, Vector3d { x: v[0], y: v[1], z: v[2] }, o)?;
    between_one(Vector3d { x: F32(u[0]), y: F32(u[1]), z: F32(u[2]) }, Vector3d { x: F32(v[0]), y: F32(v[1]), z: F32(v[2]) }, o)
}
fn between_int(a: &[u32], o: &mut Obs) -> Verdict {
    macro_rules! go {
        ($($t:ty),*) => {$({
            let c: Vec<$t> = a.iter().map(|&w| w as i32 as $t).collect();
            between_one(Vector3d { x: c[0], y: c[1], z: c[2] }, Vector3d { x: c[3], y: c[4], z: c[5] }, o)?;
        })*};
    }
    go!(i8, i16, u8, u16);
    Ok(())
}

fn euler(a: &[u32], o: &mut Obs) -> Verdict {
    let g = [f(a[0]), f(a[1]), f(a[2]), f(a[3])].map(|x| x as f64);
    let n = g.iter().map(|x| x * x).sum::<f64>().sqrt();
    if !(n > 1e-15 && n < 1e15) {
        o.trivial();
        return Ok(());
    }
    let c = g.map(|x| (x / n) as f32);
    let q = Quaternion::from(c);
    let (roll, pitch, yaw) = q.to_euler();
    let [w, x, y, z] = c.map(|x| x as f64);
    let s = 2.0 * (w * y - x * z);
    let want = s.clamp(-1.0, 1.0).asin();
    // rounding of the sine moves the angle more and more towards a quarter turn
    let cosp = (1.0 - s * s).max(0.0).sqrt();
    let slack = if cosp > 1e-3 { 3e-7 / cosp } else { 1e-3 };
    ensure!(o.within(0, (pitch as f64 - want).abs(), 0.0201 + slack), "pitch of {c:?} = {pitch}, exact {want}");
    ensure!((pitch as f64).abs() <= FRAC_PI_2 + 0.0201, "pitch of {c:?} = {pitch}");
    ensure!((roll as f64).abs() <= TAU / 2.0 + 1e-3 && (yaw as f64).abs() <= TAU / 2.0 + 1e-3, "roll {roll} or yaw {yaw} of {c:?} out of range");
    if cosp < 1e-3 {
        o.class(1);
        return Ok(());
    }
    o.class(0);
    let want = (2.0 * (w * x + y * z)).atan2(1.0 - 2.0 * (x * x + y * y));
    let slack = 6e-7 / cosp;
    ensure!(o.within(1, circ(roll as f64, want, TAU), 0.00287 + slack), "roll of {c:?} = {roll}, exact {want}");
    let want = (2.0 * (w * z + x * y)).atan2(1.0 - 2.0 * (y * y + z * z));
    ensure!(o.within(2, circ(yaw as f64, want, TAU), 0.00287 + slack), "yaw of {c:?} = {yaw}, exact {want}");
    Ok(())
}

/// A quaternion of unit length, up to rounding.
fn unit(r: &mut Rng) -> [f32; 4] {
    loop {
        let mut g = [0.0f64; 4];
        let flat = r.below(4);
        for x in &mut g {
            *x = match flat {
                0 => r.pick(&[0.0, 1.0, -1.0, 0.5, -0.5]),
                1 => r.log(-24, 0) as f64,
                _ => r.unit() * 2.0 - 1.0,
            };
        }
        let n = g.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 1e-9 {
            return g.map(|x| (x / n) as f32);
        }
    }
}

fn main() {
    let mut run = Run::new("C22", "quaternions, vectors, axes and angles; trivial: lengths whose products overflow or underflow, angles beyond 8192, vectors shorter than 1e-6 or longer than 1e6");
    run.assume("roll and yaw within 1e-3 of gimbal lock (cosine of the pitch) are unspecified; the direction of a vector taken to another is judged to 2e-3");
    let n = run.amount(30_000_000, 400_000_000);
    run.random(
        &Mon::new("rotate").classes(&["unit", "not unit", "NaN"]).metrics(&["float vector", "integer vector"]),
        n,
        |r, v| {
            let mode = r.below(3);
            let q = unit(r);
            for x in q {
                v.push(match mode { 0 | 1 => x, _ => r.any() }.to_bits());
            }
            for _ in 0..3 {
                v.push(if mode == 0 { r.any() } else { r.moderate(-10, 10) }.to_bits());
            }
        },
        rotate,
    );
    let n = run.amount(30_000_000, 400_000_000);
    run.random(
        &Mon::new("axis_angle").classes(&["half a turn or less", "more"]).metrics(&["real part", "axis"]),
        n,
        |r, v| {
            let u = unit(r);
            let mode = r.below(3);
            for i in 0..3 {
                v.push(match mode { 0 => u[i], 1 => r.moderate(-20, 20), _ => r.pick(&[0.0, 1.0, -1.0]) }.to_bits());
            }
            v.push(match r.below(4) { 0 => r.uniform(-6.4, 6.4), 1 => r.range(-16, 16) as f32 * std::f32::consts::FRAC_PI_4, 2 => r.uniform(-8192.0, 8192.0), _ => r.hostile() }.to_bits());
        },
        axis,
    );
    const B: &[&str] = &["almost the same direction", "between", "opposite", "almost opposite"];
    const BM: &[&str] = &["length", "direction", "angle", "axis"];
    let n = run.amount(40_000_000, 800_000_000);
    run.random(
        &Mon::new("from_two_vectors").classes(B).metrics(BM).fmt("ffffffuu"),
        n,
        |r, v| {
            let mode = r.below(5);
            for _ in 0..2 {
                let k = r.moderate(-12, 12).abs().max(1e-3);
                let u = unit(r);
                let faint = if r.chance(3) { r.below(8) } else { 0 };
                for i in 0..3 {
                    let x = match mode { 0 => u[i] * k, 1 => r.moderate(-14, 14), 2 => r.range(-3, 3) as f32, 3 => u[i], _ => r.pick(&[0.0, 1.0, -1.0]) * k };
                    // a component that is next to nothing, down to subnormal
                    let x = if faint >> i & 1 == 1 { x * 2f32.powi(-(r.below(75) as i32)) * 2f32.powi(-(r.below(75) as i32)) } else { x };
                    v.push(x.to_bits());
                }
            }
            v.push(r.below(6) as u32);
            v.push(r.below(28) as u32);
        },
        between,
    );
    let n = run.amount(10_000_000, 200_000_000);
    run.random(
        &Mon::new("from_two_vectors integers").classes(B).metrics(BM).fmt("i"),
        n,
        |r, v| {
            let k = r.pick(&[1, 3, 20, 127, 32767]);
            (0..6).for_each(|_| v.push(r.range(-k, k) as u32));
            if r.chance(4) {
                let s = r.pick(&[-1, 1]);
                for i in 0..3 {
                    v[3 + i] = ((v[i] as i32) * s).clamp(-k as i32, k as i32) as u32;
                }
            }
        },
        between_int,
    );
    let n = run.amount(40_000_000, 800_000_000);
    run.random(
        &Mon::new("to_euler").classes(&["judged", "gimbal lock"]).metrics(&["pitch", "roll", "yaw"]),
        n,
        |r, v| {
            let mut u = unit(r);
            if r.chance(3) {
                // a pitch of almost a quarter turn: w y - x z = ±1/2
                let (s, e) = (r.pick(&[1.0f32, -1.0]), 2f32.powi(-(r.below(26) as i32)));
                u[2] = s * u[0] + e * r.uniform(-1.0, 1.0);
                u[3] = -s * u[1] + e * r.uniform(-1.0, 1.0);
            }
            u.iter().for_each(|x| v.push(x.to_bits()));
        },
        euler,
    );
    run.finish()
}
