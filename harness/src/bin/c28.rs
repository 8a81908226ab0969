//! C28: order. Where the function rises, a larger argument does not give a smaller result beyond
//! the stated slack, however coarse the approximation.
use mmverif::{ensure, Obs, Rng, Run, Verdict, F32Ext, Mon, F32};

/// Position of a float on the line: consecutive floats have consecutive keys; -0 is just below +0.
fn key(x: f32) -> i64 {
    let b = x.to_bits();
    if b >> 31 == 0 {
        b as i64
    } else {
        -1 - (b & 0x7fff_ffff) as i64
    }
}
fn unkey(k: i64) -> f32 {
    if k >= 0 {
        f32::from_bits(k as u32)
    } else {
        f32::from_bits((-1 - k) as u32 | 1 << 31)
    }
}

struct Fun {
    name: &'static str,
    /// Made to rise: decreasing functions are negated.
    f: fn(f32) -> f32,
    lo: f32,
    hi: f32,
    /// Slack: absolute, and relative to the value.
    abs: f64,
    rel: f64,
    skip: i64,
}

const MAX: f32 = f32::MAX;
const MINP: f32 = f32::MIN_POSITIVE;
const INF: f32 = f32::INFINITY;
const HALF_PI: f32 = std::f32::consts::FRAC_PI_2;
const PI: f32 = std::f32::consts::PI;
const BIG: f32 = 8.507e37; // below 2^126

const fn fun(name: &'static str, f: fn(f32) -> f32, lo: f32, hi: f32, abs: f64, rel: f64, skip: i64) -> Fun {
    Fun { name, f, lo, hi, abs, rel, skip }
}

const FUNS: &[Fun] = &[
    fun("floor", |x| F32(x).floor().0, -INF, INF, 0.0, 0.0, 2),
    fun("ceil", |x| F32(x).ceil().0, -INF, INF, 0.0, 0.0, 2),
    fun("trunc", |x| F32(x).trunc().0, -INF, INF, 0.0, 0.0, 2),
    fun("round", |x| F32(x).round().0, -INF, INF, 0.0, 0.0, 2),
    fun("sqrt", |x| F32(x).sqrt().0, 0.0, INF, 0.0, 1e-6, 1),
    fun("-inv, positive", |x| -F32(x).inv().0, MINP, BIG, 0.0, 1e-6, 1),
    fun("-inv, negative", |x| -F32(x).inv().0, -BIG, -MINP, 0.0, 1e-6, 1),
    fun("-invsqrt", |x| -F32(x).invsqrt().0, MINP, MAX, 0.0, 1e-6, 1),
    fun("-recip, positive", |x| -F32(x).recip().0, MINP, MAX, 1e-43, 3e-5, 2),
    fun("-recip, negative", |x| -F32(x).recip().0, -MAX, -MINP, 1e-43, 3e-5, 16),
    fun("exp", |x| F32(x).exp().0, -INF, INF, 1e-43, 1e-4, 8),
    fun("ln", |x| F32(x).ln().0, 0.0, INF, 3e-5, 1e-6, 1),
    fun("log2", |x| F32(x).log2().0, 0.0, INF, 6e-5, 1e-6, 1),
    fun("log10", |x| F32(x).log10().0, 0.0, INF, 2e-5, 1e-6, 1),
    fun("atan", |x| F32(x).atan().0, -INF, INF, 2e-6, 0.0, 8),
    fun("atan_norm", |x| F32(x).atan_norm().0, -INF, INF, 2e-6, 0.0, 16),
    fun("asin", |x| F32(x).asin().0, -1.0, 1.0, 2e-6, 0.0, 8),
    fun("-acos", |x| -F32Ext::acos(x), -1.0, 1.0, 2e-6, 0.0, 8),
    fun("sin", |x| F32(x).sin().0, -HALF_PI, HALF_PI, 2e-6, 0.0, 4),
    fun("-cos", |x| -F32(x).cos().0, 0.0, PI, 2e-6, 0.0, 1),
    fun("cos", |x| F32(x).cos().0, -PI, 0.0, 2e-6, 0.0, 1),
    fun("tan", |x| F32(x).tan().0, -1.5, 1.5, 2e-6, 1e-5, 4),
    fun("cosh", |x| F32(x).cosh().0, 0.0, INF, 1e-5, 1e-4, 8),
    fun("-cosh", |x| -F32(x).cosh().0, -INF, 0.0, 1e-5, 1e-4, 32),
];

/// Watch `f` along rising arguments; the largest value so far is the one to stay above.
struct Watch {
    top: f32,
    at: f32,
}

impl Watch {
    #[inline(always)]
    fn see(&mut self, x: f32, y: f32, abs: f64, rel: f64, o: &mut Obs) -> Verdict {
        ensure!(!y.is_nan(), "not a number at {x:?}");
        if y >= self.top {
            self.top = y;
            self.at = x;
            return Ok(());
        }
        let drop = self.top as f64 - y as f64;
        let slack = abs + rel * (self.top.abs() as f64) + EXACT;
        ensure!(
            o.within(0, drop, slack),
            "{:?} at {:?} [{:#010x}], but {y:?} at {x:?} [{:#010x}]",
            self.top,
            self.at,
            self.at.to_bits(),
            x.to_bits()
        );
        Ok(())
    }
}

/// Less than any two floats differ by.
const EXACT: f64 = 1e-50;
const BLOCK: i64 = 1 << 14;

fn main() {
    let mut run = Run::new("C28", "walks along the floats in rising order, the largest result so far remembered: blocks of 16384 adjacent floats (each overlapping the next), and walks by random strides; distinct cases are distinct walks");
    for f in FUNS {
        let (lo, hi) = (key(f.lo), key(f.hi));
        let skip = if run.tier_thorough { 1 } else { f.skip };
        // away from 2^-20..2^20, the quick tier walks one block in so many
        let starts: Vec<u32> = (0..=(hi - lo) / BLOCK)
            .map(|i| (i, unkey(lo + i * BLOCK)))
            .filter(|(i, x)| (i + run.seed as i64) % skip == 0 || (x.abs() < 1.1e6 && x.abs() > 9e-7))
            .map(|(_, x)| x.to_bits())
            .collect();
        run.enumerate(
            &Mon::new(f.name).fmt("f").metrics(&["drop"]),
            starts.len() as u64,
            |i, v| v.push(starts[i as usize]),
            |a, o| {
                let k = key(f32::from_bits(a[0]));
                let mut w = Watch { top: -INF, at: -INF };
                o.within(0, 0.0, 1.0);
                for k in k..=(k + BLOCK).min(hi) {
                    let x = unkey(k);
                    w.see(x, (f.f)(x), f.abs, f.rel, o)?;
                }
                Ok(())
            },
        );
    }
    let n = run.amount(3_000_000, 60_000_000);
    run.random(
        &Mon::new("strides").fmt("ufu").metrics(&["drop"]).classes(&["to the next few", "within a binade", "over binades"]),
        n,
        |r: &mut Rng, v| {
            let i = r.below(FUNS.len() as u64);
            let (lo, hi) = (key(FUNS[i as usize].lo), key(FUNS[i as usize].hi));
            let k = lo + r.below((hi - lo + 1) as u64) as i64;
            v.extend([i as u32, unkey(k).to_bits(), 1 + (r.u32() >> (4 + r.below(28)))]);
        },
        |a, o| {
            let f = &FUNS[a[0] as usize];
            let (mut k, hi) = (key(f32::from_bits(a[1])), key(f.hi));
            let stride = a[2] as i64;
            o.class(if stride < 64 { 0 } else if stride < 1 << 16 { 1 } else { 2 });
            let mut w = Watch { top: -INF, at: -INF };
            for _ in 0..400 {
                if k > hi {
                    break;
                }
                let x = unkey(k);
                w.see(x, (f.f)(x), f.abs, f.rel, o)?;
                k += stride;
            }
            Ok(())
        },
    );
    // two arguments, one held still
    const TWO: [&str; 8] = ["powf in the base", "powf in the exponent", "powi", "hypot", "atan2 in y", "atan2 in x", "log in the argument", "powf in the base, negative exponent"];
    let n = run.amount(3_000_000, 60_000_000);
    run.random(
        &Mon::new("two arguments").fmt("uffu").classes(&TWO).metrics(&["drop"]),
        n,
        |r: &mut Rng, v| {
            let op = r.below(8) as u32;
            let (x, c) = match op {
                0 | 7 if r.chance(30) => (r.log(-1, 1).abs(), r.log(-3, 12).abs()),
                0 | 7 => (r.log(-4, 4).abs(), r.log(-3, 3).abs()),
                1 => (r.log(-4, 4), 1.0 + r.log(-4, 4).abs()),
                2 => (r.log(-3, 3).abs(), r.below(12) as f32 + 1.0),
                3 => (r.moderate(-30, 30).abs(), r.moderate(-30, 30)),
                6 => (r.moderate(-60, 60).abs(), 1.5 + r.log(0, 4).abs()),
                _ => (r.moderate(-30, 30), r.moderate(-30, 30).abs()),
            };
            v.extend([op, x.to_bits(), c.to_bits(), 1 + (r.u32() >> (8 + r.below(24)))]);
        },
        |a, o| {
            let (op, c, stride) = (a[0], f32::from_bits(a[2]), a[3] as i64);
            o.class(op as usize);
            let mut k = key(f32::from_bits(a[1]));
            let mut w = Watch { top: -INF, at: -INF };
            for _ in 0..200 {
                let x = unkey(k);
                k += stride;
                if !x.is_finite() || x.abs() > 1e18 {
                    break;
                }
                let (y, abs, rel) = match op {
                    // the pieces of exp and of ln do not quite meet
                    0 => (F32(x).powf(F32(c)).0, 2.4e-38, 3e-3 + 1e-4 * c as f64),
                    7 => (-F32(x).powf(F32(-c)).0, 2.4e-38, 3e-3 + 1e-4 * c as f64),
                    1 => (F32(c).powf(F32(x)).0, 2.4e-38, 2e-4),
                    2 => (F32(x).powi(c as i32).0, 0.0, 1e-5),
                    3 => (F32(x).hypot(F32(c)).0, 0.0, 2e-6),
                    4 => (F32(x).atan2(F32(c)).0, 2e-6, 0.0),
                    5 => (-F32(c).atan2(F32(x)).0, 2e-6, 0.0),
                    _ => (F32(x).log(F32(c)).0, 1e-4 / (c as f64).ln(), 1e-5),
                };
                w.see(x, y, abs, rel, o)?;
            }
            Ok(())
        },
    );
    run.finish()
}
