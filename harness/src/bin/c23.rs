//! C23: inverse, magnitude and normalization of quaternions.
use micromath::Quaternion;
use mmverif::{ensure, panics, spec::*, Mon, Obs, Run, Verdict};

fn check(a: &[u32], o: &mut Obs) -> Verdict {
    let c = [f(a[0]), f(a[1]), f(a[2]), f(a[3])];
    let q = Quaternion::from(c);
    let w = c.map(|x| x as f64);
    let exact: f64 = w.iter().map(|x| x * x).sum();
    let m = q.magnitude();
    let (inv, unit) = (panics(|| q.inv()), panics(|| q.normalize()));

    // documented to panic where the norm is zero, and only there
    let zero = q.norm() == 0.0;
    ensure!(inv.is_err() == zero, "inv of {c:?}, norm {:?}: {inv:?}", q.norm());
    ensure!(unit.is_err() == zero, "normalize of {c:?}, norm {:?}: {unit:?}", q.norm());
    if w == [0.0; 4] {
        o.class(1);
        ensure!(zero && m as f64 <= 3e-19, "norm {:?} and magnitude {m:?} of zero", q.norm());
        return Ok(());
    }
    if exact.is_nan() {
        o.class(2);
        ensure!(m.is_nan(), "magnitude of {c:?} = {m:?}");
        let ok = |q: &Result<Quaternion, String>| q.as_ref().unwrap().to_array().iter().any(|x| x.is_nan());
        ensure!(ok(&inv) && ok(&unit), "of {c:?}: inv {inv:?}, normalize {unit:?}");
        return Ok(());
    }
    if exact > 3.39e38 {
        o.class(3);
        ensure!(m > 1.7e19, "magnitude of {c:?} = {m:?}");
        return Ok(());
    }
    if exact < 1.2e-38 {
        o.class(4);
        ensure!(m >= 0.0 && (m as f64 - exact.sqrt()).abs() <= 3e-19, "magnitude of {c:?} = {m:?}");
        return Ok(());
    }
    o.class(0);
    let e = rel(m, exact.sqrt());
    ensure!(o.within(0, e, 0.0615), "magnitude of {c:?} = {m:?}, exact {}", exact.sqrt());

    let len = exact.sqrt();
    let u = unit.unwrap().to_array().map(|x| x as f64);
    let lu = u.iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!(o.within(1, (lu - 1.0).abs(), 0.0355), "normalize of {c:?} = {u:?}, of length {lu}");
    let off = (0..4).map(|i| (u[i] - w[i] / len * lu).abs()).fold(0.0, f64::max);
    ensure!(o.within(2, off, 3e-7), "normalize of {c:?} = {u:?}: not the same direction");

    if exact < 8.5e37 {
        o.class(5);
        // conjugate over norm, for the product with it to be one
        let i = inv.unwrap().to_array().map(|x| x as f64);
        let conj = [w[0], -w[1], -w[2], -w[3]];
        let k = (0..4).map(|j| i[j] * conj[j]).sum::<f64>();
        ensure!(o.within(3, (k - 1.0).abs(), 0.1265), "inv of {c:?} = {i:?}: times the quaternion is {k}");
        let off = (0..4).map(|j| (i[j] - conj[j] / exact * k).abs() * len).fold(0.0, f64::max);
        // where the inverse is so small that its components are subnormal they are coarse
        ensure!(o.within(4, off, 3e-7 + 3e-45 * len), "inv of {c:?} = {i:?}: not along the conjugate");
    } else {
        o.trivial();
    }
    Ok(())
}

fn main() {
    let mut run = Run::new("C23", "quaternions of every kind; trivial: norms beyond 2^126, of which only magnitude and direction are judged");
    run.assume("where the norm overflows f32 only the magnitude is required to be large, and where it underflows to be near zero");
    const C: &[&str] = &["ordinary", "zero", "NaN", "norm overflows", "norm underflows", "inverse judged"];
    const M: &[&str] = &["magnitude", "normalized length", "normalized direction", "inverse scale", "inverse direction"];
    let n = run.amount(60_000_000, 800_000_000);
    run.random(
        &Mon::new("quaternions").classes(C).metrics(M),
        n,
        |r, v| {
            let mode = r.below(10);
            let base = r.finite();
            for _ in 0..4 {
                let x = match mode {
                    0 => r.any(),
                    1 => r.moderate(-62, 62),
                    2 => r.log(-2, 2),
                    3 => r.related(base),
                    4 => r.hostile(),
                    5 => r.moderate(-58, 58) * if r.chance(3) { 0.0 } else { 1.0 },
                    6 => r.intish() * if r.chance(3) { 0.0 } else { 1.0 },
                    7 if r.chance(3) => 0.0 * r.sign(1.0),
                    7 => f32::from_bits(r.below(1 << 29) as u32),
                    _ => r.moderate(-20, 20),
                };
                v.push(x.to_bits());
            }
        },
        check,
    );
    // one component, every magnitude
    let (lo, hi) = if run.tier_thorough { (0, u32::MAX) } else { (0x3f00_0000, 0x41ff_ffff) };
    run.range(&Mon::new("along an axis").classes(&C[..1]).metrics(M), lo, hi, |a, o| {
        let x = a[0];
        check(&match x & 3 { 0 => [x, 0, 0, 0], 1 => [0, x, 0, 0], 2 => [0, 0, x, 0], _ => [0, 0, 0, x] }, o)
    });
    run.finish()
}
