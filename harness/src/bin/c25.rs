//! C25: trimming keeps, in order, just the values within the threshold.
use micromath::statistics::{trim::Iter, Mean, StdDev, Trim};
use mmverif::{ensure, iterator_protocol, gen::sample, spec::*, Mon, Obs, Rng, Run, Verdict, F32};

/// Bits of the values that an iterator yields; it must stay at its end.
fn drain<T: Copy>(mut it: impl Iterator<Item = T>, bits: impl Fn(T) -> u32, n: usize) -> Result<Vec<u32>, String> {
    let mut v = vec![];
    loop {
        let (lo, hi) = it.size_hint();
        match it.next() {
            Some(x) => {
                ensure!(hi.is_none_or(|h| h > 0), "size_hint {:?} before another value", (lo, hi));
                v.push(bits(x));
                ensure!(v.len() <= n, "more values than there were");
            }
            None => {
                ensure!(lo == 0, "size_hint {:?} at the end", (lo, hi));
                break;
            }
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "a value after the end");
    }
    Ok(v)
}

struct Got {
    at: Vec<u32>,
    new: Vec<u32>,
    default: Vec<u32>,
    at_two: Vec<u32>,
    mean: f32,
    sd: f32,
}

fn judge(bits: &[u32], x: &[f64], t: f32, g: Got, o: &mut Obs) -> Verdict {
    ensure!(g.at == g.new, "trim_at gives {:x?}, Iter::new {:x?}", g.at, g.new);
    ensure!(g.default == g.at_two, "trim gives {:x?}, trim_at(2) {:x?}", g.default, g.at_two);
    let n = x.len();
    o.class(match n { 0 => 0, 1 => 1, 2..=9 => 2, _ => 3 });
    let plain = n >= 2 && x.iter().all(|v| v.is_finite());
    let nf = n as f64;
    let mu = x.iter().sum::<f64>() / nf;
    let s: f64 = x.iter().map(|v| (v - mu) * (v - mu)).sum();
    let abs: f64 = x.iter().map(|v| v.abs()).sum();
    let d = abs / nf * EPS * (nf + 1.0) * 1.001 + 1.5e-45;
    let equal = x.windows(2).all(|w| w[0] == w[1]);
    for (kept, t) in [(&g.at, t), (&g.default, 2.0)] {
        // in order, and each of them one that was there
        let mut flags = vec![false; n];
        let mut i = 0;
        for k in kept {
            while i < n && bits[i] != *k {
                i += 1;
            }
            ensure!(i < n, "{kept:x?} is not what is left of {bits:x?} after taking some out");
            flags[i] = true;
            i += 1;
        }
        if t <= 0.0 {
            o.class(4);
            ensure!(kept.is_empty(), "{} values kept at the threshold {t}", kept.len());
            continue;
        }
        if !plain || t.is_nan() || abs > 1e38 || s > 1e38 {
            continue;
        }
        if equal {
            // no value is an outlier among its equals
            if t >= 1.1 {
                o.class(5);
                ensure!(kept.len() == n, "{} of {n} equal values kept at {t}", kept.len());
            }
            continue;
        }
        let off = nf * d * d;
        let bound = ((s + off) * EPS * (nf + 6.0) * 1.001 + off) / (nf - 1.0);
        let var = s / (nf - 1.0);
        if var - bound < 1e-36 {
            o.class(6);
            continue;
        }
        o.class(7);
        let t = t as f64;
        let (lo, hi) = ((var - bound).sqrt() * (1.0 - 0.0615) * t, (var + bound).sqrt() * 1.0615 * t);
        // equal values share a fate, so that which one a kept value is does not matter
        let of = |i: usize| kept.contains(&bits[i]);
        let small = n <= 64;
        let (mut furthest, mut nearest) = (-1.0f64, f64::INFINITY);
        for i in 0..n {
            let (kept, dist) = (if small { of(i) } else { flags[i] }, (x[i] - mu).abs());
            if dist + d * 1.01 < lo * 0.999_999 {
                o.class(8);
                ensure!(kept, "{} was culled: {} standard deviations from the mean, threshold {t}, {x:?}", x[i], dist / var.sqrt());
            }
            if (dist - d * 1.01) * 0.999_999 > hi {
                o.class(9);
                ensure!(!kept, "{} was kept: {} standard deviations from the mean, threshold {t}, {x:?}", x[i], dist / var.sqrt());
            }
            // by the standard deviation and the mean that the crate itself gives
            let own = (x[i] - g.mean as f64).abs();
            let cut = t * g.sd as f64;
            ensure!(!(own < cut * 0.999 - d) || kept, "{} was culled at {t}, mean {}, stddev {}, {x:?}", x[i], g.mean, g.sd);
            ensure!(!(own > cut * 1.001 + d) || !kept, "{} was kept at {t}, mean {}, stddev {}, {x:?}", x[i], g.mean, g.sd);
            if kept {
                furthest = furthest.max(dist)
            } else {
                nearest = nearest.min(dist)
            }
        }
        ensure!(furthest <= nearest + 2.0 * d + furthest * 1e-6, "kept a value {furthest} from the mean and culled one {nearest} from it: {x:?}");
    }
    Ok(())
}

fn floats(a: &[u32], o: &mut Obs) -> Verdict {
    let (t, bits) = (f(a[0]), &a[1..]);
    let x: Vec<f32> = bits.iter().map(|&w| f(w)).collect();
    let w: Vec<f64> = x.iter().map(|&v| v as f64).collect();
    let s = x.as_slice();
    let n = x.len();
    let b = |v: f32| v.to_bits();
    let y: Vec<F32> = x.iter().map(|&v| F32(v)).collect();
    let alt = drain(y.as_slice().trim_at(t), |v: F32| v.0.to_bits(), n)?;
    let g = Got {
        at: drain(s.trim_at(t), b, n)?,
        new: drain(Iter::new(s, t), b, n)?,
        default: drain(s.trim(), b, n)?,
        at_two: drain(s.trim_at(2.0), b, n)?,
        mean: x.iter().copied().mean(),
        sd: s.stddev(),
    };
    ensure!(alt == g.at, "F32 {alt:x?}, f32 {:x?}", g.at);
    judge(bits, &w, t, g, o)
}

/// The values are the same however the iterator is consumed.
fn ways(a: &[u32], o: &mut Obs) -> Verdict {
    let t = f(a[0]);
    let x: Vec<f32> = a[2..].iter().map(|&w| f(w)).collect();
    let s = x.as_slice();
    let want = drain(s.trim_at(t), f32::to_bits, x.len())?;
    o.class(match want.len() { 0 => 0, n if n < x.len() => 1, _ => 2 });
    iterator_protocol(|| s.trim_at(t), &want, f32::to_bits, a[1] as usize).map_err(|e| format!("trim_at({t:?}) of {x:?}: {e}"))?;
    iterator_protocol(|| Iter::new(s, t), &want, f32::to_bits, a[1] as usize).map_err(|e| format!("Iter::new({x:?}, {t:?}): {e}"))?;
    let y: Vec<i8> = a[2..].iter().map(|&w| (w >> 16) as i8).collect();
    let s = y.as_slice();
    let want = drain(s.trim(), |v| v as u32, y.len())?;
    iterator_protocol(|| s.trim(), &want, |v| v as u32, a[1] as usize).map_err(|e| format!("trim() of {y:?}: {e}"))
}

fn ints(a: &[u32], o: &mut Obs) -> Verdict {
    let t = f(a[0]);
    macro_rules! go {
        ($($t:ty),*) => {$({
            let x: Vec<$t> = a[1..].iter().map(|&w| w as $t).collect();
            let bits: Vec<u32> = x.iter().map(|&v| v as u32).collect();
            let w: Vec<f64> = x.iter().map(|&v| v as f64).collect();
            let (s, n, b) = (x.as_slice(), x.len(), |v: $t| v as u32);
            let g = Got {
                at: drain(s.trim_at(t), b, n)?,
                new: drain(Iter::new(s, t), b, n)?,
                default: drain(s.trim(), b, n)?,
                at_two: drain(s.trim_at(2.0), b, n)?,
                mean: x.iter().map(|&v| v as f32).mean(),
                sd: s.stddev(),
            };
            judge(&bits, &w, t, g, o)?;
        })*};
    }
    go!(i8, u8, i16, u16);
    Ok(())
}

fn threshold(r: &mut Rng) -> u32 {
    let t = match r.below(10) {
        0 => r.any(),
        1 => r.pick(&[0.0, -1.0, -0.0, f32::INFINITY, 1e-6]),
        2 | 3 => r.pick(&[0.5, 1.0, 1.5, 2.0, 3.0]),
        _ => r.uniform(0.0, 3.5),
    };
    t.to_bits()
}

fn main() {
    let mut run = Run::new("C25", "samples of 0 to 135000 values and thresholds; judged per value by its distance from the mean");
    run.assume("values within the error of the approximate standard deviation (6.2%) and of the mean from the threshold may go either way, as long as no value is kept that is further from the mean than one that is culled; samples of fewer than two values, NaN, infinite or overflowing ones are only required to yield a subsequence");
    const C: &[&str] = &["no value", "one value", "2 to 9 values", "more values", "threshold not positive", "all equal", "vanishing deviation", "judged", "value within the threshold", "value beyond the threshold"];
    let n = run.amount(6_000_000, 100_000_000);
    run.random(&Mon::new("short samples").classes(C), n, |r, v| { v.push(threshold(r)); let n = r.below(16); sample(r, n, v) }, floats);
    let n = run.amount(1_000_000, 10_000_000);
    run.random(&Mon::new("samples").classes(C), n, |r, v| { v.push(threshold(r)); let n = r.below(200); sample(r, n, v) }, floats);
    let n = run.amount(20_000, 200_000);
    run.random(&Mon::new("long samples").classes(&[]), n, |r, v| { v.push(threshold(r)); let n = 200 + r.below(1500); sample(r, n, v) }, floats);
    let n = run.amount(150, 1_000);
    run.random(&Mon::new("very long samples"), n, |r, v| { v.push(threshold(r)); let n = 65_000 + r.below(70_000); sample(r, n, v) }, floats);
    let n = run.amount(600_000, 6_000_000);
    const W: &[&str] = &["nothing kept", "some kept", "all kept"];
    run.random(&Mon::new("ways of iterating").classes(W), n, |r, v| { v.extend([threshold(r), r.u32()]); let n = r.below(12); sample(r, n, v) }, ways);
    let n = run.amount(1_500_000, 20_000_000);
    run.random(
        &Mon::new("integer samples").classes(C).fmt("fi"),
        n,
        |r, v| {
            v.push(threshold(r));
            let len = if r.chance(50) { r.below(500) } else { r.below(30) };
            let (k, base) = (r.pick(&[0i64, 1, 3, 50, 32767]), r.u32());
            let odd = r.below(3);
            (0..len).for_each(|_| {
                let x = base.wrapping_add(r.range(-k, k) as u32);
                v.push(if odd > 0 && r.chance(12) { r.u32() } else { x })
            });
        },
        ints,
    );
    run.finish()
}
