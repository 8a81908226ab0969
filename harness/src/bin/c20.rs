//! C20: magnitude, squared magnitude, distance and normalization of vectors.
use micromath::vector::{Component, Vector, Vector2d, Vector3d};
use mmverif::{ensure, spec::*, Mon, Obs, Rng, Run, Verdict, F32};
use std::fmt::Debug;
use std::iter::Sum;

/// Bound on the relative error of a length: that of the approximate square root, and rounding.
const LEN: f64 = 0.0615;

trait Comp: Component + Copy + Debug + Into<f32> + Sum + 'static {
    /// Exact squared magnitudes have to be in here.
    const INT: Option<(f64, f64)>;
    fn of(w: u32) -> Self;
    fn val(self) -> f64;
}
macro_rules! int {
    ($($t:ty),*) => {$( impl Comp for $t {
        const INT: Option<(f64, f64)> = Some((<$t>::MIN as f64, <$t>::MAX as f64));
        fn of(w: u32) -> Self { w as $t }
        fn val(self) -> f64 { self as f64 }
    } )*};
}
int!(i8, i16, u8, u16);
impl Comp for f32 {
    const INT: Option<(f64, f64)> = None;
    fn of(w: u32) -> Self { f(w) }
    fn val(self) -> f64 { self as f64 }
}
impl Comp for F32 {
    const INT: Option<(f64, f64)> = None;
    fn of(w: u32) -> Self { F32(f(w)) }
    fn val(self) -> f64 { self.0 as f64 }
}

/// An approximate length against the exact sum of the squares.
fn length(got: f32, sq: f64, metric: usize, o: &mut Obs, what: &str) -> Verdict {
    if sq.is_nan() {
        ensure!(got.is_nan(), "{what} = {got:?}, of NaN");
    } else if sq.is_infinite() {
        ensure!(got == f32::INFINITY, "{what} = {got:?}, of an infinite component");
    } else if sq > 3.39e38 {
        // the squares overflow
        ensure!(got > 1.7e19, "{what} = {got:?}, exact {:e}", sq.sqrt());
    } else if sq < 1e-36 {
        // the squares underflow
        let e = (got as f64 - sq.sqrt()).abs();
        ensure!(got >= 0.0 && e <= 3e-19, "{what} = {got:?}, exact {:e}", sq.sqrt());
    } else {
        let e = rel(got, sq.sqrt());
        ensure!(o.within(metric, e, LEN), "{what} = {got:?}, exact {:e}: error {:.2}%", sq.sqrt(), e * 100.0);
    }
    Ok(())
}

fn check<T: Comp, V: Vector<T> + PartialEq>(u: V, v: V, p: &[f64], q: &[f64], o: &mut Obs) -> Verdict {
    let sq = |c: &[f64]| c.iter().map(|x| x * x).sum::<f64>();
    let exact = sq(p);
    length(u.magnitude(), exact, 0, o, "magnitude")?;

    if let Some((_, hi)) = T::INT {
        if exact <= hi {
            o.class(1);
            ensure!(u.magnitude_sq().val() == exact, "magnitude_sq of {u:?} = {:?}, exact {exact}", u.magnitude_sq());
        } else {
            o.class(2);
        }
    } else if exact.is_nan() || exact.is_infinite() {
        o.class(2);
        let got = u.magnitude_sq().val();
        ensure!(got.is_nan() == exact.is_nan() && (got.is_nan() || got == exact), "magnitude_sq of {u:?} = {got:?}");
    } else if exact < 3.39e38 {
        o.class(1);
        let e = (u.magnitude_sq().val() - exact).abs();
        ensure!(e <= exact * EPS * 4.01 + 5e-45, "magnitude_sq of {u:?} = {:?}, exact {exact:e}", u.magnitude_sq());
    }

    let d: Vec<f64> = p.iter().zip(q).map(|(a, b)| a - b).collect();
    let (g, h) = (u.distance(v), v.distance(u));
    length(g, sq(&d), 1, o, "distance")?;
    ensure!(g == h || g.is_nan() && h.is_nan() || rel(g, h as f64) < 1e-6, "distance {g:?}, and {h:?} the other way");
    if p.iter().all(|x| x.is_finite()) {
        o.class(3);
        ensure!(u.distance(u) as f64 <= 3e-19, "distance of {u:?} to itself = {:?}", u.distance(u));
    }
    let (m, z) = (u.magnitude(), u.distance(V::default()));
    ensure!(m == z || m.is_nan() && z.is_nan() || rel(m, z as f64) < 1e-6, "magnitude {m:?}, distance to the origin {z:?}");
    Ok(())
}

fn vectors<T: Comp>(a: &[u32], o: &mut Obs) -> Verdict {
    let t: Vec<T> = a.iter().map(|&w| T::of(w)).collect();
    let w: Vec<f64> = t.iter().map(|v| v.val()).collect();
    o.class(if w.iter().all(|x| x.is_finite()) { 0 } else { 4 });
    check(Vector2d { x: t[0], y: t[1] }, Vector2d { x: t[3], y: t[4] }, &w[0..2], &w[3..5], o)?;
    check(Vector3d { x: t[0], y: t[1], z: t[2] }, Vector3d { x: t[3], y: t[4], z: t[5] }, &w[0..3], &w[3..6], o)
}

fn unit<T: Comp + From<f32>, V: Vector<T>>(v: V, o: &mut Obs) -> Verdict {
    let p: Vec<f64> = v.iter().map(|c| c.val()).collect();
    let n: Vec<f64> = v.normalized().iter().map(|c| c.val()).collect();
    let sq: f64 = p.iter().map(|x| x * x).sum();
    let len = sq.sqrt();
    if p.iter().any(|x| x.is_nan()) {
        ensure!(n.iter().any(|x| x.is_nan()), "normalized({v:?}) = {n:?}");
        o.class(2);
        return Ok(());
    }
    if !(1e-36..=3.39e38).contains(&sq) {
        o.class(1);
        o.trivial();
        return Ok(());
    }
    o.class(0);
    let got = n.iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!(o.within(0, (got - 1.0).abs(), 0.066), "normalized({v:?}) = {n:?}, length {got}");
    // the same direction
    let mut worst = 0f64;
    for (a, b) in p.iter().zip(&n) {
        worst = worst.max((b - a / len * got).abs());
    }
    ensure!(o.within(1, worst, 3e-7), "normalized({v:?}) = {n:?}: off its direction by {worst:e}");
    Ok(())
}

fn units<T: Comp + From<f32>>(a: &[u32], o: &mut Obs) -> Verdict {
    let t: Vec<T> = a.iter().map(|&w| T::of(w)).collect();
    unit(Vector2d { x: t[0], y: t[1] }, o)?;
    unit(Vector3d { x: t[0], y: t[1], z: t[2] }, o)
}

fn floats(r: &mut Rng, v: &mut Vec<u32>, n: usize) {
    let mode = r.below(8);
    let base = r.finite();
    for _ in 0..n {
        let x = match mode {
            0 => r.any(),
            1 => r.moderate(-62, 62),
            2 => r.log(-2, 2),
            3 => r.related(base),
            4 => r.hostile(),
            5 => r.moderate(-58, 58) * if r.chance(3) { 0.0 } else { 1.0 },
            _ => r.moderate(-20, 20),
        };
        v.push(x.to_bits());
    }
}

fn main() {
    let mut run = Run::new("C20", "pairs of vectors of each component type that converts to f32; trivial: normalization of vectors whose squares overflow or underflow");
    run.assume("where the sum of squares overflows f32 a length is only required to be large, and where it underflows to be near zero; integer squared magnitudes are judged where the type can represent them");
    const C: &[&str] = &["finite", "squared magnitude judged", "squared magnitude not representable", "distance to itself", "not finite"];
    const M: &[&str] = &["magnitude", "distance"];
    let n = run.amount(20_000_000, 400_000_000);
    run.random(&Mon::new("f32").classes(C).metrics(M), n, |r, v| floats(r, v, 6), vectors::<f32>);
    run.random(&Mon::new("F32").classes(C).metrics(M), n / 2, |r, v| floats(r, v, 6), vectors::<F32>);
    let small = |r: &mut Rng, v: &mut Vec<u32>| {
        (0..6).for_each(|_| v.push(match r.below(4) { 0 => r.u32(), 1 => r.below(16) as u32, 2 => r.below(256) as u32, _ => (r.range(-130, 130)) as u32 }))
    };
    let n = run.amount(4_000_000, 100_000_000);
    run.random(&Mon::new("i8").classes(&C[..4]).metrics(M).fmt("i"), n, small, vectors::<i8>);
    run.random(&Mon::new("u8").classes(&C[..4]).metrics(M).fmt("i"), n, small, vectors::<u8>);
    run.random(&Mon::new("i16").classes(&C[..4]).metrics(M).fmt("i"), n, small, vectors::<i16>);
    run.random(&Mon::new("u16").classes(&C[..4]).metrics(M).fmt("i"), n, small, vectors::<u16>);
    const N: &[&str] = &["ordinary", "squares overflow or underflow", "NaN"];
    const NM: &[&str] = &["length", "direction"];
    let n = run.amount(20_000_000, 400_000_000);
    run.random(&Mon::new("normalized f32").classes(N).metrics(NM), n, |r, v| floats(r, v, 3), units::<f32>);
    run.random(&Mon::new("normalized F32").classes(N).metrics(NM), n / 2, |r, v| floats(r, v, 3), units::<F32>);
    // every magnitude of one component
    let near = |a: &[u32], o: &mut Obs| -> Verdict {
        let x = f(a[0]);
        let p = [x as f64, 0.0, 0.0];
        let v = Vector3d { x: 0.0, y: x, z: 0.0 };
        o.class(if x.is_nan() || x.is_infinite() { 1 } else { 0 });
        length(v.magnitude(), p[0] * p[0], 0, o, "magnitude")?;
        let v = Vector2d { x: F32(0.0), y: F32(x) };
        length(v.magnitude(), p[0] * p[0], 0, o, "magnitude")
    };
    let (lo, hi) = if run.tier_thorough { (0, u32::MAX) } else { (0x1f00_0000, 0x5fff_ffff) };
    let m = Mon::new("axis vectors").metrics(&M[..1]);
    run.range(&m, lo, hi, near);
    run.finish()
}
