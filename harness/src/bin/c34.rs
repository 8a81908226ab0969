//! C34: no jumps. Where the true function is continuous, arguments that are as close as floats can
//! be give results that are as close, however coarse the approximation.
use micromath::vector::{F32x2, F32x3, Vector};
use micromath::Quaternion;
use mmverif::{ensure, F32Ext, Mon, Obs, Rng, Run, Verdict, F32};

/// Position of a float on the line: consecutive floats have consecutive keys; -0 is just below +0.
fn key(x: f32) -> i64 {
    let b = x.to_bits();
    if b >> 31 == 0 {
        b as i64
    } else {
        -1 - (b & 0x7fff_ffff) as i64
    }
}
fn unkey(k: i64) -> f32 {
    if k >= 0 {
        f32::from_bits(k as u32)
    } else {
        f32::from_bits((-1 - k) as u32 | 1 << 31)
    }
}

struct Fun {
    name: &'static str,
    f: fn(f32) -> f32,
    lo: f32,
    hi: f32,
    /// The largest step: from the argument, its distance to the next one, and the result.
    step: fn(f64, f64, f64) -> f64,
    skip: i64,
}

const MAX: f32 = f32::MAX;
const MINP: f32 = f32::MIN_POSITIVE;
const BIG: f32 = 8.507e37; // below 2^126
const BLOCK: i64 = 1 << 14;

const fn fun(name: &'static str, f: fn(f32) -> f32, lo: f32, hi: f32, step: fn(f64, f64, f64) -> f64, skip: i64) -> Fun {
    Fun { name, f, lo, hi, step, skip }
}

const FUNS: &[Fun] = &[
    fun("sqrt", |x| F32(x).sqrt().0, MINP, MAX, |_, _, y| 5e-7 * y.abs(), 1),
    fun("invsqrt", |x| F32(x).invsqrt().0, MINP, MAX, |_, _, y| 5e-7 * y.abs(), 1),
    fun("inv", |x| F32(x).inv().0, MINP, BIG, |_, _, y| 6e-7 * y.abs(), 1),
    fun("inv, negative", |x| F32(x).inv().0, -BIG, -MINP, |_, _, y| 6e-7 * y.abs(), 2),
    fun("recip", |x| F32(x).recip().0, MINP, BIG, |_, _, y| 2e-5 * y.abs(), 2),
    fun("recip, negative", |x| F32(x).recip().0, -BIG, -MINP, |_, _, y| 2e-5 * y.abs(), 8),
    fun("exp, positive", |x| F32(x).exp().0, 0.0, 88.7, |_, _, y| 1e-3 * y.abs(), 8),
    fun("exp, negative", |x| F32(x).exp().0, -87.0, 0.0, |_, _, y| 3e-3 * y.abs(), 8),
    fun("cosh", |x| F32(x).cosh().0, -88.7, 88.7, |_, _, y| 1e-3 * y.abs(), 8),
    fun("ln", |x| F32(x).ln().0, MINP, MAX, |_, _, y| 1.4e-4 + 3e-7 * y.abs(), 1),
    fun("log2", |x| F32(x).log2().0, MINP, MAX, |_, _, y| 2e-4 + 3e-7 * y.abs(), 2),
    fun("log10", |x| F32(x).log10().0, MINP, MAX, |_, _, y| 6e-5 + 3e-7 * y.abs(), 2),
    fun("sin", |x| F32(x).sin().0, -8192.0, 8192.0, |x, d, _| 3.0 * d + 2e-6 + 1.3e-7 * x.abs(), 4),
    fun("cos", |x| F32(x).cos().0, -8192.0, 8192.0, |x, d, _| 3.0 * d + 2e-6 + 1.3e-7 * x.abs(), 4),
    fun("tan", |x| F32(x).tan().0, -1.5, 1.5, |_, d, y| (3.0 * d + 1e-6) * (1.0 + y * y), 4),
    fun("atan", |x| F32(x).atan().0, -MAX, MAX, |x, d, _| 2.0 * d / (1.0 + x * x) + 1e-6, 8),
    fun("atan_norm", |x| F32(x).atan_norm().0, -MAX, MAX, |x, d, _| 1.4 * d / (1.0 + x * x) + 1e-6, 8),
    fun("asin", |x| F32(x).asin().0, -1.0, 1.0, |x, d, _| 4.0 * d / (1.0 - (x.abs() - d) * (x.abs() - d)).sqrt() + 1e-6, 4),
    fun("acos", |x| F32Ext::acos(x), -1.0, 1.0, |x, d, _| 4.0 * d / (1.0 - (x.abs() - d) * (x.abs() - d)).sqrt() + 1e-6, 4),
];

const PAIRS: [&str; 14] = [
    "hypot",
    "length in 2D",
    "length in 3D",
    "distance",
    "normalized",
    "atan2",
    "atan2 across an axis",
    "quaternion magnitude",
    "quaternion normalize",
    "quaternion inv",
    "axis_angle",
    "rotate",
    "from_two_vectors",
    "powf",
];

/// The results of operation `op` for the components.
fn results(op: usize, c: &[f32], out: &mut Vec<f32>) {
    out.clear();
    let v2 = F32x2::from((c[0], c[1]));
    let (u, v) = (F32x3::from((c[0], c[1], c[2])), F32x3::from((c[3], c[4], c[5])));
    let q = Quaternion::new(c[0], c[1], c[2], c[3]);
    match op {
        0 => out.push(F32(c[0]).hypot(F32(c[1])).0),
        1 => out.push(v2.magnitude()),
        2 => out.push(u.magnitude()),
        3 => out.push(u.distance(v)),
        4 => out.extend(u.normalized().to_array()),
        5 | 6 => out.push(F32(c[0]).atan2(F32(c[1])).0),
        7 => out.push(q.magnitude()),
        8 => out.extend(q.normalize().to_array()),
        9 => out.extend(q.inv().to_array()),
        10 => out.extend(Quaternion::axis_angle(u, c[3]).to_array()),
        11 => out.extend(q.rotate(v).to_array()),
        12 => out.extend(Quaternion::from_two_vectors(u, v).to_array()),
        _ => out.push(F32(c[0].abs()).powf(F32(c[1])).0),
    }
}

/// Operation, component to move, six components.
fn pairs(a: &[u32], o: &mut Obs) -> Verdict {
    let (op, at) = (a[0] as usize, a[1] as usize);
    let c: [f32; 6] = std::array::from_fn(|k| f32::from_bits(a[k + 2]));
    let mut d = c;
    if op == 6 {
        // to the other side of the axis; the angle between the two is twice the distance from it
        d[at] = -c[at];
    } else {
        d[at] = unkey(key(c[at]) + 1);
    }
    let len = |c: &[f32]| c.iter().map(|&x| x as f64 * x as f64).sum::<f64>().sqrt();
    // how large an output is, against which the difference counts, and how much it may be
    let (scale, bound) = match op {
        0 | 1 => (len(&c[..2]), 1e-6),
        2 => (len(&c[..3]), 1e-6),
        // the difference of the rounded components
        3 => (len(&[c[0] - c[3], c[1] - c[4], c[2] - c[5]]), 1e-6 + 5e-7 * (c[at].abs() as f64) / len(&[c[0] - c[3], c[1] - c[4], c[2] - c[5]]).max(1e-30)),
        4 | 8 => (1.0, 1e-6),
        5 => (1.0, 1e-6),
        6 => {
            let ratio = (c[at] / c[1 - at]).abs() as f64;
            (1.0, 1e-6 + 2.2 * ratio)
        }
        7 => (len(&c[..4]), 1e-6),
        9 => (1.0 / len(&c[..4]), 2e-6),
        10 => (1.0 + len(&c[..3]), 2e-6 + 5e-7 * c[3].abs() as f64),
        11 => (len(&c[..4]).powi(2) * c[4].abs().max(c[5].abs()).max(c[3].abs()) as f64, 3e-6),
        12 => {
            let (lu, lv) = (len(&c[..3]), len(&c[3..]));
            let cos = (0..3).map(|k| c[k] as f64 * c[k + 3] as f64).sum::<f64>() / (lu * lv);
            if cos < -0.99 {
                o.trivial();
                return Ok(());
            }
            (1.0, 1e-5)
        }
        _ => (0.0, 3.1e-3 + 1.4e-4 * c[1].abs() as f64 + 5e-7 * ((c[0].abs() as f64).ln() * c[1] as f64).abs()),
    };
    let zero = (scale == 0.0 && op != 13) || ((7..10).contains(&op) && len(&c[..4]) < 1e-10);
    if zero || !scale.is_finite() || d.iter().any(|x| !x.is_finite()) || (op == 12 && (len(&c[..3]) < 1e-4 || len(&c[3..]) < 1e-4)) {
        o.trivial();
        return Ok(());
    }
    let (mut p, mut q) = (Vec::with_capacity(4), Vec::with_capacity(4));
    results(op, &c, &mut p);
    results(op, &d, &mut q);
    for (x, y) in p.iter().zip(&q) {
        let mut e = (*x as f64 - *y as f64).abs();
        if op == 5 || op == 6 {
            e = e.min((e - std::f64::consts::TAU).abs());
        }
        let s = if op == 13 { (x.abs().max(y.abs())) as f64 } else { scale };
        if op == 13 && !(s.is_normal() && s < 1e38 && s > 1e-37) {
            o.trivial();
            return Ok(());
        }
        o.class(op);
        ensure!(o.within(op, e / s, bound), "{} gives {p:?} for {c:?} and {q:?} for {d:?}", PAIRS[op]);
    }
    Ok(())
}

/// The true values of what `results` gives.
fn truth(op: usize, c: &[f64; 6]) -> Vec<f64> {
    let sq = |c: &[f64]| c.iter().map(|x| x * x).sum::<f64>();
    let by = |c: &[f64], k: f64| c.iter().map(|x| x * k).collect::<Vec<f64>>();
    match op {
        0 | 1 => vec![sq(&c[..2]).sqrt()],
        2 => vec![sq(&c[..3]).sqrt()],
        3 => vec![sq(&[c[0] - c[3], c[1] - c[4], c[2] - c[5]]).sqrt()],
        4 => by(&c[..3], 1.0 / sq(&c[..3]).sqrt()),
        5 | 6 => vec![c[0].atan2(c[1])],
        7 => vec![sq(&c[..4]).sqrt()],
        8 => by(&c[..4], 1.0 / sq(&c[..4]).sqrt()),
        9 => {
            let n = sq(&c[..4]);
            vec![c[0] / n, -c[1] / n, -c[2] / n, -c[3] / n]
        }
        10 => {
            let (s, w) = (0.5 * c[3]).sin_cos();
            vec![w, s * c[0], s * c[1], s * c[2]]
        }
        11 => {
            let [w, x, y, z, b, d] = *c;
            let v = [z, b, d];
            let row = |a: f64, b: f64, c: f64| a * v[0] + b * v[1] + c * v[2];
            vec![
                row(w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)),
                row(2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x)),
                row(2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z),
            ]
        }
        _ => {
            let n = (sq(&c[..3]) * sq(&c[3..])).sqrt();
            let q = [n + c[0] * c[3] + c[1] * c[4] + c[2] * c[5], c[1] * c[5] - c[2] * c[4], c[2] * c[3] - c[0] * c[5], c[0] * c[4] - c[1] * c[3]];
            by(&q, 1.0 / sq(&q).sqrt())
        }
    }
}

/// The operations that walks are taken with.
const WALKS: [usize; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];

struct Point {
    t: f64,
    c: [f32; 6],
    result: Vec<f32>,
    error: Vec<f64>,
}

/// Operation, components, and where they go: scaled up by 1/1024 a step, or along a line. Where the error changes
/// most the walk is repeated with smaller steps, down to adjacent floats.
fn walks(a: &[u32], o: &mut Obs) -> Verdict {
    let op = a[0] as usize;
    let c: [f64; 6] = std::array::from_fn(|k| f32::from_bits(a[k + 1]) as f64);
    let d: [f64; 6] = std::array::from_fn(|k| f32::from_bits(a[k + 7]) as f64);
    let width = [2, 2, 3, 6, 3, 2, 2, 4, 4, 4, 3, 6, 6][op];
    let len = |c: &[f64]| c[..width].iter().map(|x| x * x).sum::<f64>().sqrt();
    let part = |c: &[f64]| c.iter().map(|x| x * x).sum::<f64>().sqrt();
    let scaling = a[13] == 0;
    let size = len(&c);
    if size == 0.0 || (op == 12 && (part(&c[..3]) == 0.0 || part(&c[3..]) == 0.0)) {
        o.trivial();
        return Ok(());
    }
    o.class(op);
    let angle = |e: f64| if op == 5 || op == 6 { e.abs().min((e.abs() - std::f64::consts::TAU).abs()) } else { e.abs() };
    let at = |t: f64| -> Option<Point> {
        let p: [f64; 6] = std::array::from_fn(|k| {
            if op == 10 && k == 3 {
                // a turn and a half, to either side
                c[3] + 9.4 * t * d[3]
            } else if scaling {
                c[k] * t.exp2()
            } else {
                c[k] + d[k] * size * t
            }
        });
        let c = p.map(|x| x as f32);
        let p = c.map(|x| x as f64);
        if op >= 7 && len(&p) < 1e-3 * size {
            return None;
        }
        if op == 12 {
            let (lu, lv) = (part(&p[..3]), part(&p[3..]));
            if lu.min(lv) < 1e-3 * size || (p[0] * p[3] + p[1] * p[4] + p[2] * p[5]) / (lu * lv) < -0.9 {
                return None;
            }
        }
        let mut result = Vec::with_capacity(4);
        results(op, &c, &mut result);
        let error = truth(op, &p).iter().zip(&result).map(|(t, r)| *r as f64 - t).collect();
        Some(Point { t, c, result, error })
    };
    let check = |p: &Point, q: &Point, o: &mut Obs| -> Verdict {
        let (x, y) = (p.c.map(|x| x as f64), q.c.map(|x| x as f64));
        let step = len(&std::array::from_fn::<f64, 6, _>(|k| x[k] - y[k]));
        let (scale, least) = (len(&y), len(&x).min(len(&y)));
        // the step that is allowed
        let bound = match op {
            0..=2 | 7 => 1.5 * step + 2e-6 * scale,
            3 => 2.2 * step + 2e-6 * scale,
            4 | 8 => 3.0 * step / least + 2e-6,
            5 | 6 => 1.5 * step / least + 2e-6,
            9 => 5.0 * step / (least * least) + 4e-6 / least,
            10 => 1.2 * (x[3] - y[3]).abs() * (1.0 + scale) + 1.1 * step + (2e-6 + 3e-7 * y[3].abs()) * (1.0 + scale),
            11 => 6.0 * (scale + step).powi(2) * step + 3e-6 * scale.powi(3),
            _ => {
                let least = part(&x[..3]).min(part(&x[3..])).min(part(&y[..3])).min(part(&y[3..]));
                12.0 * step / least + 1e-5
            }
        };
        for (x, y) in p.result.iter().zip(&q.result) {
            let e = angle(*x as f64 - *y as f64);
            ensure!(o.within(op, e, bound), "{} gives {:?} for {:?} and {:?} for {:?}", PAIRS[op], p.result, p.c, q.result, q.c);
        }
        Ok(())
    };
    let change = |p: &Point, q: &Point| p.error.iter().zip(&q.error).map(|(x, y)| angle(x - y)).fold(0.0, f64::max);
    // the two steps over which the error changes most
    let mut worst = [(0.0, 0.0, 0.0); 2];
    let mut last: Option<Point> = None;
    for t in 0..512 {
        let now = at(t as f64 / 1024.0);
        if let (Some(p), Some(q)) = (&last, &now) {
            check(p, q, o)?;
            let e = change(p, q);
            if e > worst[1].0 {
                worst[1] = (e, p.t, q.t);
                worst.sort_by(|a, b| b.0.total_cmp(&a.0));
            }
        }
        last = now;
    }
    for (e, mut lo, mut hi) in worst {
        for _ in 0..8 {
            let mut best = (-1.0, lo, hi);
            let mut last = at(lo);
            for k in 1..=8 {
                let now = at(lo + (hi - lo) * k as f64 / 8.0);
                if let (Some(p), Some(q)) = (&last, &now) {
                    check(p, q, o)?;
                    let e = change(p, q);
                    if e > best.0 {
                        best = (e, p.t, q.t);
                    }
                }
                last = now;
            }
            (lo, hi) = (best.1, best.2);
            if e == 0.0 || hi - lo < 1e-9 {
                break;
            }
        }
    }
    Ok(())
}

fn main() {
    let mut run = Run::new("C34", "walks along adjacent floats: blocks of 16384, each overlapping the next, within the domain where the function is continuous; random tuples of which one component moves to the next float or, for atan2, across an axis; distinct cases are distinct walks or tuples");
    run.assume("the bound on a step is about twice what the derivative gives plus the rounding of the approximation; exp and the logarithms join pieces that differ by up to 0.3% and 1.4e-4");
    for f in FUNS {
        let (lo, hi) = (key(f.lo), key(f.hi));
        let skip = if run.tier_thorough { 1 } else { f.skip };
        let starts: Vec<u32> = (0..=(hi - lo) / BLOCK)
            .map(|i| (i, unkey(lo + i * BLOCK)))
            .filter(|(i, x)| (i + run.seed as i64) % skip == 0 || (x.abs() < 5e3 && x.abs() > 1e-5))
            .map(|(_, x)| x.to_bits())
            .collect();
        run.enumerate(&Mon::new(f.name).fmt("f").metrics(&["step"]), starts.len() as u64, |i, v| v.push(starts[i as usize]), |a, o| {
            let k = key(f32::from_bits(a[0]));
            let mut x = unkey(k);
            let mut y = (f.f)(x);
            for k in k + 1..=(k + BLOCK).min(hi) {
                let (x2, y2) = (unkey(k), (f.f)(unkey(k)));
                let d = x2 as f64 - x as f64;
                let e = (y2 as f64 - y as f64).abs();
                let bound = (f.step)(x as f64, d, (y.abs().max(y2.abs())) as f64);
                ensure!(o.within(0, e, bound), "{y:?} at {x:?} [{:#010x}], but {y2:?} at the next float", x.to_bits());
                (x, y) = (x2, y2);
            }
            Ok(())
        });
    }
    let m = Mon::new("several arguments").fmt("uuffffff").classes(&PAIRS).metrics(&PAIRS);
    run.random(&m, run.amount(40_000_000, 2_000_000_000), |r: &mut Rng, v| {
        let op = r.below(14) as u32;
        let width = [2, 2, 3, 6, 3, 2, 2, 4, 4, 4, 4, 6, 6, 2][op as usize];
        v.extend([op, r.below(width) as u32]);
        let mode = r.below(6);
        let base = r.log(-10, 10);
        let mut c = [0f32; 6];
        for x in &mut c {
            *x = match mode {
                // of one size, of two, around the seams of the square root (sums that are powers of four)
                0 => base * r.uniform(-2.0, 2.0),
                1 => r.log(-10, 10),
                2 => r.pick(&[0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 4.0, 3.0]),
                3 => {
                    let k = r.pick(&[1.0, 1.0, 0.5, 0.999_999_94, 1.000_000_1]);
                    r.sign(base * k)
                }
                4 => r.moderate(-14, 14),
                _ => r.log(-2, 2),
            };
        }
        if op < 3 && r.chance(3) {
            // scale to a sum of squares next to a power of two
            let s = 2f64.powi(r.range(-20, 20) as i32).sqrt() / c[..width as usize].iter().map(|&x| x as f64 * x as f64).sum::<f64>().sqrt();
            c.iter_mut().for_each(|x| *x = (*x as f64 * s) as f32);
        }
        if op == 6 {
            let at = v[1] as usize;
            c[at] = r.log(-60, -10) * c[1 - at];
            if c[at] == 0.0 {
                c = [1.0; 6];
                c[at] = 1e-9;
            }
        }
        if op == 5 {
            // adjacent floats, away from zero
            c.iter_mut().for_each(|x| if x.abs() < 1e-20 { *x = 1.0 });
        }
        if op == 10 {
            c[3] = r.uniform(-100.0, 100.0);
        }
        if op == 13 {
            c[1] = r.uniform(-20.0, 20.0);
        }
        v.extend(c.map(|x| if x.is_finite() { x } else { 1.0 }.to_bits()));
    }, pairs);
    let m = Mon::new("walks").fmt("uffffffffffffu").classes(&PAIRS[..13]).metrics(&PAIRS[..13]);
    run.random(&m, run.amount(400_000, 20_000_000), |r: &mut Rng, v| {
        let op = r.pick(&WALKS);
        v.push(op as u32);
        let (size, flat) = (r.log(-20, 20), r.chance(3));
        (0..6).for_each(|_| v.push((size * if flat { r.pick(&[0.0, 1.0, -1.0, 1e-3]) } else { r.uniform(-1.0, 1.0) }).to_bits()));
        if op == 10 {
            v[4] = r.uniform(-30.0, 30.0).to_bits();
        }
        (0..6).for_each(|_| v.push(r.uniform(-2.0, 2.0).to_bits()));
        v.push(r.below(2) as u32);
    }, walks);
    run.finish()
}
