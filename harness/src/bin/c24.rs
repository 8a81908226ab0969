//! C24: mean, variance and standard deviation of samples of any length and element type.
use micromath::statistics::{Mean, StdDev, Variance};
use mmverif::{ensure, gen::sample, spec::*, Mon, Obs, Rng, Run, Verdict, F32};

/// Exact mean and sum of squared deviations.
fn exact(x: &[f64]) -> (f64, f64) {
    let n = x.len() as f64;
    let m = x.iter().sum::<f64>() / n;
    // corrected, for the rounding of the sum
    let m = m + x.iter().map(|v| v - m).sum::<f64>() / n;
    (m, x.iter().map(|v| (v - m) * (v - m)).sum())
}

fn close(got: f32, want: f64) -> bool {
    if want.is_nan() { got.is_nan() } else { got as f64 == want }
}

fn judge(x: &[f64], means: &[f32], var: f32, sd: f32, o: &mut Obs) -> Verdict {
    let n = x.len();
    o.class(match n { 0 => 0, 1 => 1, 2..=9 => 2, 10..=99 => 3, _ => 4 });
    for m in means {
        ensure!(same(*m, means[0]), "the mean differs between ways of iterating: {means:?}");
    }
    let m = means[0];
    if n == 0 {
        // no value is the mean of nothing
        ensure!(m.is_nan(), "mean of no values = {m:?}");
        return Ok(());
    }
    if x.iter().any(|v| !v.is_finite()) {
        o.class(5);
        let s: f64 = x.iter().sum();
        // partial sums of the finite values must not overflow on their own
        if x.iter().filter(|v| v.is_finite()).map(|v| v.abs()).sum::<f64>() < 1.7e38 || x.iter().any(|v| v.is_nan()) {
            ensure!(close(m, s), "mean with NaN or infinite values = {m:?}, IEEE {s:?}");
        }
        ensure!(var.is_nan() && sd.is_nan(), "variance {var:?}, stddev {sd:?} with NaN or infinite values");
        return Ok(());
    }
    let abs: f64 = x.iter().map(|v| v.abs()).sum();
    if abs > 1.7e38 {
        o.trivial();
        return Ok(());
    }
    let (mu, s) = exact(x);
    let nf = n as f64;
    // n additions and a division, each rounded
    let d = abs / nf * EPS * (nf + 1.0) * 1.001 + 1.5e-45;
    ensure!(o.within(0, (m as f64 - mu).abs(), d), "mean of {n} values = {m:?}, exact {mu:e}, bound {d:e}");
    let (lo, hi) = x.iter().fold((f64::MAX, f64::MIN), |(a, b), &v| (a.min(v), b.max(v)));
    ensure!(m as f64 >= lo - d && m as f64 <= hi + d, "mean of {n} values = {m:?}, outside {lo}..{hi}");
    if n == 1 {
        ensure!(var.is_nan() && sd.is_nan(), "variance {var:?}, stddev {sd:?} of a single value");
        return Ok(());
    }
    let off = nf * d * d;
    if s + off > 1.7e38 {
        return Ok(());
    }
    let want = s / (nf - 1.0);
    // squares of differences from a mean that is off by d, each rounded, and their sum
    let bound = ((s + off) * EPS * (nf + 6.0) * 1.001 + off) / (nf - 1.0) + 3e-45 * nf / (nf - 1.0);
    ensure!(o.within(1, (var as f64 - want).abs(), bound), "variance of {n} values = {var:?}, exact {want:e}, bound {bound:e}");
    ensure!(var >= 0.0 && sd >= 0.0, "variance {var:?}, stddev {sd:?}");
    if var >= 1.2e-38 {
        o.class(6);
        let e = rel(sd, (var as f64).sqrt());
        ensure!(o.within(2, e, 0.061), "stddev of {n} values = {sd:?}, of the variance {var:?}");
        let (a, b) = ((want - bound).max(0.0).sqrt() * (1.0 - 0.061), (want + bound).sqrt() * 1.061);
        ensure!((a..=b).contains(&(sd as f64)), "stddev of {n} values = {sd:?}, exact {}", want.sqrt());
    } else {
        o.class(7);
        ensure!(sd as f64 <= 3e-19, "stddev of {n} values = {sd:?}, of the variance {var:?}");
    }
    Ok(())
}

fn floats(a: &[u32], o: &mut Obs) -> Verdict {
    let x: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    let w: Vec<f64> = x.iter().map(|&v| v as f64).collect();
    let k = x.len() / 3;
    let means = [
        x.iter().cloned().mean(),
        x.clone().into_iter().mean(),
        x[..k].iter().chain(&x[k..]).copied().mean(),
        x.iter().copied().filter(|_| true).mean(),
    ];
    let t: Vec<F32> = x.iter().map(|&v| F32(v)).collect();
    let (v, s) = (x.as_slice().variance(), x.as_slice().stddev());
    let (vt, st) = (t.as_slice().variance(), t.as_slice().stddev());
    ensure!(same(v, vt) && same(s, st), "f32 and F32 differ: variance {v:?} / {vt:?}, stddev {s:?} / {st:?}");
    judge(&w, &means, v, s, o)
}

fn ints(a: &[u32], o: &mut Obs) -> Verdict {
    macro_rules! go {
        ($($t:ty),*) => {$({
            let x: Vec<$t> = a.iter().map(|&w| w as $t).collect();
            let w: Vec<f64> = x.iter().map(|&v| v as f64).collect();
            let means = [x.iter().map(|&v| v as f32).mean()];
            judge(&w, &means, x.as_slice().variance(), x.as_slice().stddev(), o)?;
        })*};
    }
    go!(i8, u8, i16, u16);
    Ok(())
}

/// One value among zeros, in samples longer than narrow counters (and floats) can count.
/// Whatever the order of summation, all but a share of 1/n is exact.
fn sparse(a: &[u32], o: &mut Obs) -> Verdict {
    let (n, x) = (a[0] as u64 + ((a[1] as u64) << 32), f(a[3]));
    let at = [0, n / 2, n - 1][a[2] as usize];
    o.class(if n < 1 << 24 { 0 } else if n < 1 << 31 { 1 } else { 2 });
    let m = (0..n).map(|i| if i == at { x } else { 0.0 }).mean();
    ensure!(o.within(0, rel(m, x as f64 / n as f64), 1e-6), "mean of {x:?} (at {at}) and {} zeros = {m:?}", n - 1);
    if n > 1 << 26 {
        return Ok(());
    }
    let mut s = vec![0u8; n as usize];
    s[at as usize] = 200;
    let (v, d) = (s.as_slice().variance(), s.as_slice().stddev());
    let want = 40_000.0 * (1.0 - 1.0 / n as f64) / (n - 1) as f64;
    ensure!(o.within(1, rel(v, want), 1e-5 + 2.0 / n as f64), "variance of 200 (at {at}) and {} zeros = {v:?}, not {want:e}", n - 1);
    ensure!(o.within(2, rel(d, want.sqrt()), 0.0615 + 1.0 / n as f64), "stddev of 200 (at {at}) and {} zeros = {d:?}", n - 1);
    Ok(())
}

fn main() {
    let mut run = Run::new("C24", "samples of 0 to 135000 values: small integers, decimals, large offsets, outliers, constants, hostile values; trivial: values whose sum overflows");
    run.assume("variance and standard deviation are judged where the squares do not overflow f32; the bounds are those of summation in any order with one rounding per operation");
    const C: &[&str] = &["no value", "one value", "2 to 9 values", "10 to 99 values", "more values", "NaN or infinite value", "ordinary variance", "vanishing variance"];
    const M: &[&str] = &["mean", "variance", "stddev"];
    let n = run.amount(8_000_000, 100_000_000);
    run.random(&Mon::new("short samples").classes(C).metrics(M), n, |r, v| { let n = if r.chance(500) { 150 } else { r.below(12) }; sample(r, n, v) }, floats);
    let n = run.amount(1_500_000, 10_000_000);
    run.random(&Mon::new("samples").classes(C).metrics(M), n, |r, v| { let n = r.below(300); sample(r, n, v) }, floats);
    let n = run.amount(20_000, 200_000);
    run.random(&Mon::new("long samples").classes(&[]).metrics(M), n, |r, v| { let n = 500 + r.below(5000); sample(r, n, v) }, floats);
    let n = run.amount(200, 1_000);
    run.random(&Mon::new("very long samples").metrics(M), n, |r, v| { let n = 65_000 + r.below(70_000); sample(r, n, v) }, floats);
    let n = run.amount(2_000_000, 30_000_000);
    run.random(
        &Mon::new("integer samples").metrics(M).fmt("i"),
        n,
        |r, v| {
            let len = if r.chance(50) { r.below(2000) } else { r.below(40) };
            let (k, base) = (r.pick(&[0i64, 1, 3, 50, 32767, 1 << 31]), r.u32());
            (0..len).for_each(|_| v.push(if k == 1 << 31 { r.u32() } else { base.wrapping_add(r.range(-k, k) as u32) }));
        },
        ints,
    );
    let m = Mon::new("long samples, counted").fmt("uuuf").metrics(M).classes(&["less than 2^24 values", "2^24 values and more", "2^31 values and more"]);
    let mut lengths: Vec<u64> = [7, 8, 15, 16, 24].iter().flat_map(|b| (0..5).map(move |k| (1 << b) - 2 + k)).collect();
    lengths.extend([10, 1000, 100_000, 1_000_000, 3 << 23, (1 << 25) + 3, (1 << 31) + 1, (1 << 32) + 3]);
    if run.tier_thorough {
        lengths.extend([(1 << 31) - 1, 1 << 31, (1 << 33) + 1]);
    }
    run.enumerate(
        &m,
        3 * lengths.len() as u64,
        |i, v| {
            // the longest first
            let (n, at) = (lengths[lengths.len() - 1 - i as usize / 3], (i % 3) as u32);
            let x = Rng::new(i).uniform(1.0, 1e6);
            v.extend([n as u32, (n >> 32) as u32, at, x.to_bits()]);
        },
        sparse,
    );
    run.finish()
}
