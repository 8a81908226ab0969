//! C36: the open traits. Vectors of any number of axes, component and sample types, and iterators
//! that users define work like those of the crate.
use micromath::statistics::{trim, Mean, StdDev, Trim, Variance};
use micromath::vector::{Component, F32x3, Vector, Vector2d, Vector3d};
use micromath::Quaternion;
use mmverif::{ensure, iterator_protocol, panics, spec::*, Mon, Obs, Rng, Run, Verdict};
use std::cell::Cell;
use std::fmt::Debug;
use std::iter::Sum;
use std::ops::{Add, Div, Mul, Sub};

/// Bound on the relative error of a length, as in C20.
const LEN: f64 = 0.0615;

// ---- component types ----

/// Double precision.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
struct Dbl(f64);
/// Fixed point, 16 bits of fraction.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
struct Fix(i64);

impl Add for Dbl { type Output = Dbl; fn add(self, o: Dbl) -> Dbl { Dbl(self.0 + o.0) } }
impl Sub for Dbl { type Output = Dbl; fn sub(self, o: Dbl) -> Dbl { Dbl(self.0 - o.0) } }
impl Mul for Dbl { type Output = Dbl; fn mul(self, o: Dbl) -> Dbl { Dbl(self.0 * o.0) } }
impl Div for Dbl { type Output = Dbl; fn div(self, o: Dbl) -> Dbl { Dbl(self.0 / o.0) } }
impl Add for Fix { type Output = Fix; fn add(self, o: Fix) -> Fix { Fix(self.0 + o.0) } }
impl Sub for Fix { type Output = Fix; fn sub(self, o: Fix) -> Fix { Fix(self.0 - o.0) } }
impl Mul for Fix { type Output = Fix; fn mul(self, o: Fix) -> Fix { Fix((self.0 * o.0) >> 16) } }
impl Div for Fix { type Output = Fix; fn div(self, o: Fix) -> Fix { Fix((self.0 << 16) / o.0) } }
impl Sum for Dbl { fn sum<I: Iterator<Item = Dbl>>(i: I) -> Dbl { i.fold(Dbl(0.0), |a, b| a + b) } }
impl Sum for Fix { fn sum<I: Iterator<Item = Fix>>(i: I) -> Fix { i.fold(Fix(0), |a, b| a + b) } }
impl From<Dbl> for f32 { fn from(x: Dbl) -> f32 { x.0 as f32 } }
impl From<f32> for Dbl { fn from(x: f32) -> Dbl { Dbl(x as f64) } }
impl From<Fix> for f32 { fn from(x: Fix) -> f32 { x.0 as f32 / 65536.0 } }
impl From<f32> for Fix { fn from(x: f32) -> Fix { Fix((x * 65536.0) as i64) } }
impl Component for Dbl {}
impl Component for Fix {}

trait Comp: Component + Copy + Debug + Into<f32> + From<f32> + Sum + 'static {
    fn val(self) -> f64;
    fn of(w: u32) -> Self;
    /// By how much a result of these terms, of the given total size, may be off.
    fn slack(terms: f64, size: f64) -> f64;
}
impl Comp for f32 {
    fn val(self) -> f64 { self as f64 }
    fn of(w: u32) -> f32 { f(w) }
    fn slack(terms: f64, size: f64) -> f64 { EPS * 1.01 * (terms + 1.0) * size }
}
impl Comp for Dbl {
    fn val(self) -> f64 { self.0 }
    fn of(w: u32) -> Dbl { Dbl(f(w) as f64) }
    fn slack(terms: f64, size: f64) -> f64 { 1.2e-16 * (terms + 1.0) * size }
}
impl Comp for Fix {
    fn val(self) -> f64 { self.0 as f64 / 65536.0 }
    // 24 bits: f32 holds every value, and i64 every product
    fn of(w: u32) -> Fix { Fix(((w as i32) >> 8) as i64) }
    // a product is rounded down
    fn slack(terms: f64, _: f64) -> f64 { terms / 65536.0 }
}

// ---- vector types ----

/// A vector of any number of axes.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Axes<const N: usize, C>([C; N]);
impl<const N: usize, C: Component> Default for Axes<N, C> {
    fn default() -> Self { Axes([C::default(); N]) }
}
impl<const N: usize, C: Component> FromIterator<C> for Axes<N, C> {
    fn from_iter<T: IntoIterator<Item = C>>(i: T) -> Self {
        let mut v = Self::default();
        let mut i = i.into_iter();
        for (k, s) in v.0.iter_mut().enumerate() {
            match i.next() {
                Some(c) => *s = c,
                None => panic!("only {k} of {N} components"),
            }
        }
        assert!(i.next().is_none(), "more than {N} components");
        v
    }
}
impl<const N: usize, C: Component> Vector<C> for Axes<N, C> {
    const AXES: usize = N;
    fn get(self, i: usize) -> Option<C> { self.0.get(i).copied() }
    fn dot(self, o: Self) -> C { self.0.iter().zip(&o.0).fold(C::default(), |s, (a, b)| s + *a * *b) }
}

fn length(got: f32, want: f64, metric: usize, o: &mut Obs, what: &str) -> Verdict {
    if want < 1e-17 {
        ensure!(got >= 0.0 && got < 2e-17, "{what} = {got:?}, exact {want:e}");
    } else {
        ensure!(o.within(metric, rel(got, want), LEN), "{what} = {got:?}, exact {want:e}");
    }
    Ok(())
}

fn axes<const N: usize, C: Comp>(a: &[u32], o: &mut Obs) -> Verdict {
    let p: [C; N] = core::array::from_fn(|i| C::of(mutate(a, i)));
    let q: [C; N] = core::array::from_fn(|i| C::of(mutate(a, N + i)));
    let (u, v) = (Axes(p), Axes(q));
    let mut it = u.iter();
    for i in 0..N {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= N - i && hi.is_none_or(|h| h >= N - i), "{N} axes: size_hint {:?} with {} left", (lo, hi), N - i);
        let c = it.next();
        ensure!(c == Some(p[i]), "{N} axes: component {i} of iter() = {c:?}, put in {:?}", p[i]);
    }
    for _ in 0..3 {
        let c = it.next();
        ensure!(c.is_none(), "{N} axes: iter() yields {c:?} after the end");
    }
    if a[0] & if N < 40 { 3 } else { 63 } == 0 {
        // components by their place
        let keys: Vec<u64> = p.iter().map(|c| c.val().to_bits()).collect();
        iterator_protocol(|| u.iter(), &keys, |c| c.val().to_bits(), a[0] as usize >> 6).map_err(|e| format!("{N} axes: iter(): {e}"))?;
    }
    let mut k = 0;
    let mut in_order = true;
    let mut w = u;
    let turned = w.map(|c| {
        in_order &= k < N && c == p[k];
        k += 1;
        q[k - 1]
    });
    ensure!(in_order && k == N && turned == v, "{N} axes: map called its function {k} times, in order {in_order}, and made {turned:?}");
    ensure!(Axes::<N, C>::from_slice(&p) == u, "{N} axes: from_slice");
    ensure!(panics(|| Axes::<N, C>::from_slice(&p[1..])).is_err(), "{N} axes: from_slice of one less is accepted");
    let longer: Vec<C> = p.iter().chain(&q[..1]).copied().collect();
    ensure!(panics(|| Axes::<N, C>::from_slice(&longer)).is_err(), "{N} axes: from_slice of one more is accepted");

    let wide = |c: &[C]| c.iter().map(|x| x.val()).collect::<Vec<f64>>();
    let (x, y) = (wide(&p), wide(&q));
    let sq: f64 = x.iter().map(|x| x * x).sum();
    let d: f64 = x.iter().zip(&y).map(|(a, b)| (a - b) * (a - b)).sum();
    length(u.magnitude(), sq.sqrt(), 0, o, &format!("{N} axes: magnitude of {p:?}"))?;
    length(u.distance(v), d.sqrt(), 1, o, &format!("{N} axes: distance of {p:?} and {q:?}"))?;
    ensure!(u.distance(v) == v.distance(u), "{N} axes: distance is not symmetric");
    let got = u.magnitude_sq().val();
    ensure!((got - sq).abs() <= C::slack(N as f64, sq), "{N} axes: magnitude_sq of {p:?} = {got}, exact {sq}");
    if sq > 1e-30 {
        let n = wide(&u.normalized().0);
        let ln = n.iter().map(|x| x * x).sum::<f64>().sqrt();
        // what is left out by a component that is held in few bits
        let grain = if C::slack(1.0, 0.0) > 0.0 { 2.0 / 65536.0 } else { 0.0 };
        ensure!(o.within(2, ((ln - 1.0).abs() - grain * (N as f64).sqrt()).max(0.0), 0.066 + 1e-6), "{N} axes: normalized {p:?} has the length {ln}");
        let off = x.iter().zip(&n).map(|(a, b)| (b - a / sq.sqrt() * ln).abs()).fold(0.0, f64::max);
        ensure!(off <= 1e-6 + grain * (2.0 + (N as f64).sqrt()), "{N} axes: normalized {p:?} is off its direction by {off:e}");
    }
    // padded with zeros it is as long
    if N >= 2 {
        let mut z = [C::default(); N];
        (z[0], z[N - 1]) = (p[0], p[N - 1]);
        let (l, m) = (Axes(z).magnitude(), Vector2d { x: p[0], y: p[N - 1] }.magnitude());
        ensure!((l as f64 - m as f64).abs() <= 2e-6 * m as f64, "{N} axes, two of them used: magnitude {l:?}, in 2D {m:?}");
    }
    Ok(())
}

/// Component `i` of a vector described by few words.
fn mutate(a: &[u32], i: usize) -> u32 {
    let r = mmverif::gen::mix(a[0] as u64 | (i as u64) << 32);
    let x = match a[1] % 4 {
        // of one size
        0 => (r as i32 as f32) * 2f32.powi((a[2] % 60) as i32 - 60),
        // of all sizes
        1 => f32::from_bits((r as u32 & 0x807f_ffff) | (97 + ((r >> 32) % 60) as u32) << 23),
        // mostly zeros
        2 => if r >> 40 & 7 == 0 { (r as i32 % 1000) as f32 } else { 0.0 },
        _ => (r as i32 % 5) as f32,
    };
    if a[1] & 4 != 0 {
        r as u32
    } else {
        x.to_bits()
    }
}
fn mutate_int(a: &[u32], i: usize) -> u32 {
    (mutate(&[a[0], 4, 0], i) as i32 >> (a[2] % 20)) as u32
}
fn axes_int<const N: usize>(a: &[u32], o: &mut Obs) -> Verdict {
    axes::<N, Fix>(&[a[0], 4, a[2]], o)
}

// ---- the crate's vectors and quaternions, of those components ----

fn built_in<C: Comp>(a: &[u32], o: &mut Obs) -> Verdict {
    let c: Vec<C> = (0..8).map(|i| C::of(if C::slack(1.0, 0.0) > 0.0 { mutate_int(a, i) } else { mutate(a, i) })).collect();
    let w: Vec<f64> = c.iter().map(|x| x.val()).collect();
    let (u, v, s) = (Vector3d { x: c[0], y: c[1], z: c[2] }, Vector3d { x: c[3], y: c[4], z: c[5] }, c[6]);
    let (g, h) = (Vector2d { x: c[0], y: c[1] }, Vector2d { x: c[3], y: c[4] });
    let three = |what: &str, got: Vector3d<C>, want: [C; 3]| -> Verdict {
        ensure!(got.to_array() == want, "{what}: {got:?}, of the components {want:?}; {u:?}, {v:?}, {s:?}");
        Ok(())
    };
    let two = |what: &str, got: Vector2d<C>, want: [C; 2]| -> Verdict {
        ensure!(got.to_array() == want, "{what}: {got:?}, of the components {want:?}; {g:?}, {h:?}, {s:?}");
        Ok(())
    };
    three("+", u + v, [0, 1, 2].map(|i| c[i] + c[i + 3]))?;
    three("-", u - v, [0, 1, 2].map(|i| c[i] - c[i + 3]))?;
    three("* scalar", u * s, [0, 1, 2].map(|i| c[i] * s))?;
    two("+", g + h, [0, 1].map(|i| c[i] + c[i + 3]))?;
    two("-", g - h, [0, 1].map(|i| c[i] - c[i + 3]))?;
    two("* scalar", g * s, [0, 1].map(|i| c[i] * s))?;
    let (mut k, mut l) = (u, g);
    k += v;
    l += h;
    three("+=", k, (u + v).to_array())?;
    two("+=", l, (g + h).to_array())?;
    k -= v;
    l -= h;
    three("-=", k, ((u + v) - v).to_array())?;
    two("-=", l, ((g + h) - h).to_array())?;
    (k, l) = (u, g);
    k *= s;
    l *= s;
    three("*=", k, (u * s).to_array())?;
    two("*=", l, (g * s).to_array())?;
    if s != C::default() {
        o.class(0);
        three("/ scalar", u / s, [0, 1, 2].map(|i| c[i] / s))?;
        two("/ scalar", g / s, [0, 1].map(|i| c[i] / s))?;
        (k, l) = (u, g);
        k /= s;
        l /= s;
        three("/=", k, (u / s).to_array())?;
        two("/=", l, (g / s).to_array())?;
    }
    three("sum", [u, v, u].iter().sum(), ((u + v) + u).to_array())?;
    two("sum", [g, h, g].into_iter().sum(), ((g + h) + g).to_array())?;
    three("3D from 2D", g.into(), [c[0], c[1], C::default()])?;

    let term = |i: usize, j: usize| w[i] * w[j];
    let near = |what: &str, got: C, want: f64, size: f64, n: f64| -> Verdict {
        ensure!((got.val() - want).abs() <= C::slack(n, size), "{what} = {got:?}, exact {want}; {u:?}, {v:?}");
        Ok(())
    };
    let dot = term(0, 3) + term(1, 4) + term(2, 5);
    let size = term(0, 3).abs() + term(1, 4).abs() + term(2, 5).abs();
    near("3D dot", u.dot(v), dot, size, 3.0)?;
    near("3D dot of the trait", Vector::dot(u, v), dot, size, 3.0)?;
    let (dot, size) = (term(0, 3) + term(1, 4), term(0, 3).abs() + term(1, 4).abs());
    near("2D dot", g.dot(h), dot, size, 2.0)?;
    near("2D dot of the trait", Vector::dot(g, h), dot, size, 2.0)?;
    for m in [u.cross(v), u * v] {
        for (i, got) in m.to_array().into_iter().enumerate() {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            near("cross product", got, term(j, k + 3) - term(k, j + 3), term(j, k + 3).abs() + term(k, j + 3).abs(), 2.0)?;
        }
    }
    near("perpendicular dot", g.perpendicular_dot(h), term(0, 4) - term(1, 3), term(0, 4).abs() + term(1, 3).abs(), 2.0)?;

    // the same as for f32, of the same numbers
    let of = |v: Vector3d<C>| F32x3 { x: v.x.into(), y: v.y.into(), z: v.z.into() };
    let (uf, vf) = (of(u), of(v));
    let same_as = |what: &str, a: f32, b: f32| -> Verdict {
        ensure!(same(a, b) || (a - b).abs() as f64 <= 2e-6 * b.abs() as f64, "{what} = {a:?}, of f32 {b:?}; {u:?}, {v:?}");
        Ok(())
    };
    same_as("magnitude", u.magnitude(), uf.magnitude())?;
    same_as("distance", u.distance(v), uf.distance(vf))?;
    let q = Quaternion::new(w[5] as f32, w[6] as f32, w[7] as f32, w[0] as f32);
    let quat = |what: &str, a: Quaternion, b: Quaternion| -> Verdict {
        let size = b.to_array().iter().map(|x| x.abs()).sum::<f32>();
        ensure!(a.to_array().iter().zip(b.to_array()).all(|(&x, y)| same(x, y) || (x - y).abs() <= 2e-6 * size), "{what}: {a:?}, of f32 {b:?}; {u:?}, {v:?}");
        Ok(())
    };
    let (r, t) = (q.rotate(u), q.rotate(uf));
    let size = q.norm() * (uf.x.abs() + uf.y.abs() + uf.z.abs());
    for r in [r, q * u] {
        ensure!(r.iter().zip(t.iter()).all(|(x, y)| same(x, y) || (x - y).abs() <= 2e-6 * size), "{q:?} rotating {u:?}: {r:?}, of f32 {t:?}");
    }
    quat("quaternion of a vector", Quaternion::from(u), Quaternion::from(uf))?;
    quat("axis_angle", Quaternion::axis_angle(u, s), Quaternion::axis_angle(uf, s.into()))?;
    if uf.dot(uf) > 0.0 && vf.dot(vf) > 0.0 {
        o.class(1);
        quat("from_two_vectors", Quaternion::from_two_vectors(u, v), Quaternion::from_two_vectors(uf, vf))?;
    }
    quat("scale", q.scale(s), q.scale(Into::<f32>::into(s)))
}

// ---- samples and iterators ----

/// A measurement: a value, and which one it is.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Tagged {
    value: f32,
    id: usize,
}
impl From<Tagged> for f32 {
    fn from(t: Tagged) -> f32 { t.value }
}

/// An iterator which goes on after its first end, and says little about its length.
struct Resuming<'a> {
    values: &'a [f32],
    at: usize,
    hint: (usize, Option<usize>),
    calls: &'a Cell<usize>,
}
impl Iterator for Resuming<'_> {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        self.calls.set(self.calls.get() + 1);
        self.at += 1;
        match self.at - 1 {
            i if i < self.values.len() => Some(self.values[i]),
            i if i == self.values.len() => None,
            _ => Some(1e9),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

/// A collection that implements `Trim` itself, with the default threshold of the trait.
struct Mine<'a>(&'a [f32], Cell<f32>);
impl Trim for Mine<'_> {
    type Result = f32;
    fn trim_at(&self, threshold: f32) -> trim::Iter<'_, f32> {
        self.1.set(threshold);
        trim::Iter::new(self.0, threshold)
    }
}

fn samples(a: &[u32], o: &mut Obs) -> Verdict {
    let t = f(a[0]);
    let x: Vec<f32> = a[1..].iter().map(|&b| f(b)).collect();
    let n = x.len();
    o.class(match n { 0 => 0, 1 => 1, _ => 2 });
    let tagged: Vec<Tagged> = x.iter().enumerate().map(|(id, &value)| Tagged { value, id }).collect();
    let close = |what: &str, a: f32, b: f32| -> Verdict {
        ensure!(same(a, b) || (a as f64 - b as f64).abs() <= 1e-6 * b.abs() as f64, "{what} = {a:?}, of f32 {b:?}");
        Ok(())
    };
    let (s, tg) = (&x[..], &tagged[..]);
    close("variance of measurements", tg.variance(), s.variance())?;
    close("stddev of measurements", tg.stddev(), s.stddev())?;
    // the measurements themselves come out, and the same ones
    let keep: Vec<f32> = s.trim_at(t).collect();
    let ids: Vec<usize> = tg.trim_at(t).map(|m| m.id).collect();
    ensure!(ids.windows(2).all(|w| w[0] < w[1]) && ids.iter().all(|&i| i < n), "trim_at({t:?}) of measurements is not a subsequence: {ids:?}");
    let values: Vec<f32> = ids.iter().map(|&i| x[i]).collect();
    ensure!(values.len() == keep.len() && values.iter().zip(&keep).all(|(&a, &b)| same_bits(a, b)), "trim_at({t:?}) of measurements keeps {values:?}, of f32 {keep:?}");
    ensure!(tg.trim_at(t).all(|m| same_bits(m.value, x[m.id])), "trim_at changed a measurement");
    if ids.len() < n && !ids.is_empty() {
        o.class(3);
    }
    // all equal values are treated alike
    for (i, &v) in x.iter().enumerate() {
        let kept = ids.binary_search(&i).is_ok();
        if let Some(j) = x[..i].iter().position(|&w| w == v) {
            ensure!(ids.binary_search(&j).is_ok() == kept, "trim_at({t:?}): of the equal values {v:?} at {i} and {j} one is kept");
        }
    }
    let mine = Mine(s, Cell::new(f32::NAN));
    let k: Vec<f32> = mine.trim().collect();
    ensure!(mine.1.get() == 2.0, "trim() of a type of its own asks for trim_at({:?})", mine.1.get());
    let l: Vec<f32> = s.trim().collect();
    ensure!(k.len() == l.len() && k.iter().zip(&l).all(|(&a, &b)| same_bits(a, b)), "trim() of a type of its own keeps {k:?}, of the slice {l:?}");

    // the mean of what an iterator yields until its end, whatever it is made of
    let m = s.iter().copied().mean();
    let size: f64 = x.iter().map(|v| v.abs() as f64).sum::<f64>() / (n.max(1) as f64);
    let agree = |what: &str, g: f32| -> Verdict {
        ensure!(same(g, m) || (g as f64 - m as f64).abs() <= 2.0 * EPS * (n as f64 + 2.0) * size, "mean of {what} = {g:?}, of the values {m:?}");
        Ok(())
    };
    if size < 1e30 {
        o.class(4);
        for hint in [(0, None), (n, Some(n)), (0, Some(0)), (usize::MAX, None), (0, Some(usize::MAX)), (n + 2, Some(n + 2)), (1, Some(1)), (n + 1, None), (2 * n, Some(n))] {
            let calls = Cell::new(0);
            agree("an iterator that goes on after its end", Resuming { values: s, at: 0, hint, calls: &calls }.mean())?;
            ensure!(calls.get() == n + 1, "mean asked {} times for {n} values", calls.get());
        }
        agree("the reverse", s.iter().rev().copied().mean())?;
        agree("a chain", s[..n / 2].iter().chain(&s[n / 2..]).copied().mean())?;
        agree("what is filtered", s.iter().chain(&[f32::INFINITY]).copied().filter(|v| v.is_finite() || v.is_nan()).mean())?;
        agree("measurements", tagged.iter().map(|t| f32::from(*t)).mean())?;
        agree("a mutable borrow", s.iter().copied().by_ref().mean())?;
        let dynamic: &mut dyn Iterator<Item = f32> = &mut s.iter().copied();
        agree("a trait object", dynamic.mean())?;
    }
    // components that are taken from iterators of this kind
    if n >= 2 {
        let calls = Cell::new(0);
        let (p, q) = (s[0], s[n - 1]);
        let v: Vector2d<f32> = Resuming { values: &[p, q], at: 0, hint: (0, None), calls: &calls }.collect();
        ensure!(same_bits(v.x, p) && same_bits(v.y, q), "2D from an iterator that goes on after its end: {v:?}");
        let v: Vector3d<f32> = Resuming { values: &[p, q, p], at: 0, hint: (0, None), calls: &calls }.collect();
        ensure!(same_bits(v.x, p) && same_bits(v.y, q) && same_bits(v.z, p), "3D from an iterator that goes on after its end: {v:?}");
        ensure!(panics(|| Resuming { values: &[p], at: 0, hint: (2, Some(2)), calls: &calls }.collect::<Vector2d<f32>>()).is_err(), "2D from an iterator that ends after one");
        ensure!(panics(|| Resuming { values: &[p, q], at: 0, hint: (3, Some(3)), calls: &calls }.collect::<Vector3d<f32>>()).is_err(), "3D from an iterator that ends after two");
        ensure!(panics(|| Resuming { values: &[p, q, p], at: 0, hint: (2, Some(2)), calls: &calls }.collect::<Vector2d<f32>>()).is_err(), "2D from an iterator of three");
    }
    Ok(())
}

fn main() {
    let mut run = Run::new("C36", "vectors of 1 to 300 axes, double precision and fixed point components, tagged measurements and odd iterators, all defined outside of the crate");
    let word = |r: &mut Rng, v: &mut Vec<u32>| {
        v.push(r.u32());
        v.push(r.below(4) as u32);
        v.push(r.u32());
    };
    const M: &[&str] = &["magnitude", "distance", "normalized length"];
    macro_rules! axes {
        ($($n:literal: $amount:expr),*) => {$({
            let n = run.amount($amount, 40 * $amount);
            run.random(&Mon::new(concat!("f32, ", $n, " axes")).metrics(M).fmt("u"), n, word, axes::<$n, f32>);
            run.random(&Mon::new(concat!("double, ", $n, " axes")).metrics(M).fmt("u"), n, word, axes::<$n, Dbl>);
            run.random(&Mon::new(concat!("fixed, ", $n, " axes")).metrics(M).fmt("u"), n, word, axes_int::<$n>);
        })*};
    }
    axes!(1: 200_000, 2: 200_000, 3: 200_000, 4: 200_000, 5: 200_000, 7: 200_000, 9: 100_000, 16: 100_000, 33: 50_000, 300: 5_000);
    const B: &[&str] = &["division", "between two vectors"];
    let n = run.amount(2_000_000, 100_000_000);
    run.random(&Mon::new("vectors and quaternions of doubles").classes(B).fmt("u"), n, word, built_in::<Dbl>);
    run.random(&Mon::new("vectors and quaternions of fixed point").classes(B).fmt("u"), n, word, built_in::<Fix>);
    let n = run.amount(1_000_000, 40_000_000);
    run.random(
        &Mon::new("samples and iterators").classes(&["empty", "one value", "more", "some kept", "mean judged"]),
        n,
        |r, v| {
            v.push(r.pick(&[0.0f32, 0.5, 1.0, 1.5, 2.0, 3.0, f32::INFINITY]).to_bits());
            let n = if r.chance(50) { r.below(400) } else { r.below(14) };
            mmverif::gen::sample(r, n, v);
        },
        samples,
    );
    run.finish()
}
