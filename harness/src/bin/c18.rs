//! C18: vector arithmetic is component-wise, and products are the algebraic ones, for every
//! component type.
use micromath::vector::{Component, Vector, Vector2d, Vector3d};
use mmverif::{ensure, spec::*, Mon, Obs, Rng, Run, Verdict, F32};
use std::fmt::Debug;
use std::ops::Mul;

/// An integer component type.
trait Int: Component + Debug + Copy + PartialEq + 'static {
    const LO: i64;
    const HI: i64;
    fn of(w: u32) -> Self;
    fn wide(self) -> i64;
    fn from_wide(x: i64) -> Self;
    fn left2(self, v: Vector2d<Self>) -> Vector2d<Self>;
    fn left3(self, v: Vector3d<Self>) -> Vector3d<Self>;
}
macro_rules! int {
    ($($t:ty),*) => {$(
        impl Int for $t {
            const LO: i64 = <$t>::MIN as i64;
            const HI: i64 = <$t>::MAX as i64;
            fn of(w: u32) -> Self { w as $t }
            fn wide(self) -> i64 { self as i64 }
            fn from_wide(x: i64) -> Self { x as $t }
            fn left2(self, v: Vector2d<Self>) -> Vector2d<Self> { self * v }
            fn left3(self, v: Vector3d<Self>) -> Vector3d<Self> { self * v }
        }
    )*};
}
int!(i8, i16, i32, u8, u16, u32);

fn fits<T: Int>(x: i64) -> bool {
    x >= T::LO && x <= T::HI
}
/// The sum of the terms, where no term and no partial sum in any order leaves the type.
fn sum<T: Int>(terms: &[(i64, i64, i64)]) -> Option<i64> {
    let (mut lo, mut hi, mut s) = (0i64, 0i64, 0i64);
    for &(sign, a, b) in terms {
        let p = a.saturating_mul(b);
        if !fits::<T>(p) {
            return None;
        }
        let t = sign * p;
        if t < 0 {
            lo += t
        } else {
            hi += t
        }
        s += t;
    }
    (fits::<T>(lo) && fits::<T>(hi) || terms.len() == 2 && terms[1].0 < 0 && fits::<T>(s)).then_some(s)
}

/// Classes: 0 in range, 1 some operation overflows, 2 negative operands, 3 zero scalar
fn int2<T: Int>(x0: T, y0: T, x1: T, y1: T, o: &mut Obs) -> Verdict {
    let (a, b) = (Vector2d { x: x0, y: y0 }, Vector2d { x: x1, y: y1 });
    let [p, q, r, s] = [x0, y0, x1, y1].map(|v| v.wide());
    let v = |x: i64, y: i64| Vector2d { x: T::from_wide(x), y: T::from_wide(y) };
    let mut all = true;
    if fits::<T>(p + r) && fits::<T>(q + s) {
        let want = v(p + r, q + s);
        let mut c = a;
        c += b;
        ensure!(a + b == want && c == want, "{a:?} + {b:?} = {:?} (+= {c:?})", a + b);
    } else {
        all = false;
    }
    if fits::<T>(p - r) && fits::<T>(q - s) {
        let want = v(p - r, q - s);
        let mut c = a;
        c -= b;
        ensure!(a - b == want && c == want, "{a:?} - {b:?} = {:?} (-= {c:?})", a - b);
    } else {
        all = false;
    }
    if let Some(d) = sum::<T>(&[(1, p, r), (1, q, s)]) {
        let want = T::from_wide(d);
        ensure!(a.dot(b) == want && Vector::dot(a, b) == want, "{a:?}.dot({b:?}) = {:?} / {:?}", a.dot(b), Vector::dot(a, b));
    } else {
        all = false;
    }
    if let Some(d) = sum::<T>(&[(1, p, s), (-1, q, r)]) {
        let want = T::from_wide(d);
        ensure!(a.perpendicular_dot(b) == want, "{a:?}.perpendicular_dot({b:?}) = {:?}", a.perpendicular_dot(b));
        let w = Vector3d { x: T::default(), y: T::default(), z: want };
        ensure!(a.cross(b) == w && a * b == w, "{a:?}.cross({b:?}) = {:?} (* {:?})", a.cross(b), a * b);
    } else {
        all = false;
    }
    o.class(!all as usize);
    if p < 0 || q < 0 || r < 0 || s < 0 {
        o.class(2);
    }
    Ok(())
}

fn int2_scale<T: Int>(x: T, y: T, k: T, o: &mut Obs) -> Verdict {
    let a = Vector2d { x, y };
    let [p, q, s] = [x, y, k].map(|v| v.wide());
    let v = |x: i64, y: i64| Vector2d { x: T::from_wide(x), y: T::from_wide(y) };
    let mut all = true;
    if fits::<T>(p.saturating_mul(s)) && fits::<T>(q.saturating_mul(s)) {
        let want = v(p * s, q * s);
        let mut c = a;
        c *= k;
        ensure!(a * k == want && c == want && k.left2(a) == want, "{a:?} * {k:?} = {:?} (*= {c:?}, from the left {:?})", a * k, k.left2(a));
    } else {
        all = false;
    }
    if s != 0 && fits::<T>(p / s) && fits::<T>(q / s) {
        let want = v(p / s, q / s);
        let mut c = a;
        c /= k;
        ensure!(a / k == want && c == want, "{a:?} / {k:?} = {:?} (/= {c:?})", a / k);
    }
    o.class(!all as usize);
    if p < 0 || q < 0 || s < 0 {
        o.class(2);
    }
    if s == 0 {
        o.class(3);
    }
    Ok(())
}

fn int3<T: Int>(a: &[u32], o: &mut Obs) -> Verdict {
    let t: Vec<T> = a.iter().map(|&w| T::of(w)).collect();
    let w: Vec<i64> = t.iter().map(|v| v.wide()).collect();
    let u = Vector3d { x: t[0], y: t[1], z: t[2] };
    let v = Vector3d { x: t[3], y: t[4], z: t[5] };
    let k = t[6];
    let make = |c: [i64; 3]| c.iter().all(|&x| fits::<T>(x)).then(|| Vector3d { x: T::from_wide(c[0]), y: T::from_wide(c[1]), z: T::from_wide(c[2]) });
    let mut all = true;
    if let Some(want) = make([w[0] + w[3], w[1] + w[4], w[2] + w[5]]) {
        let mut c = u;
        c += v;
        ensure!(u + v == want && c == want, "{u:?} + {v:?} = {:?} (+= {c:?})", u + v);
    } else {
        all = false;
    }
    if let Some(want) = make([w[0] - w[3], w[1] - w[4], w[2] - w[5]]) {
        let mut c = u;
        c -= v;
        ensure!(u - v == want && c == want, "{u:?} - {v:?} = {:?} (-= {c:?})", u - v);
    } else {
        all = false;
    }
    if let Some(want) = make([w[0].saturating_mul(w[6]), w[1].saturating_mul(w[6]), w[2].saturating_mul(w[6])]) {
        let mut c = u;
        c *= k;
        ensure!(u * k == want && c == want && k.left3(u) == want, "{u:?} * {k:?} = {:?} (*= {c:?}, from the left {:?})", u * k, k.left3(u));
    } else {
        all = false;
    }
    if w[6] != 0 {
        if let Some(want) = make([w[0] / w[6], w[1] / w[6], w[2] / w[6]]) {
            let mut c = u;
            c /= k;
            ensure!(u / k == want && c == want, "{u:?} / {k:?} = {:?} (/= {c:?})", u / k);
        }
    } else {
        o.class(3);
    }
    if let Some(d) = sum::<T>(&[(1, w[0], w[3]), (1, w[1], w[4]), (1, w[2], w[5])]) {
        let want = T::from_wide(d);
        ensure!(u.dot(v) == want && Vector::dot(u, v) == want, "{u:?}.dot({v:?}) = {:?} / {:?}, exact {want:?}", u.dot(v), Vector::dot(u, v));
    } else {
        all = false;
    }
    let c = [(1, 5, 2, 4), (2, 3, 0, 5), (0, 4, 1, 3)].map(|(i, j, k, l)| sum::<T>(&[(1, w[i], w[j]), (-1, w[k], w[l])]));
    if let [Some(x), Some(y), Some(z)] = c {
        let want = Vector3d { x: T::from_wide(x), y: T::from_wide(y), z: T::from_wide(z) };
        ensure!(u.cross(v) == want && u * v == want, "{u:?}.cross({v:?}) = {:?} (* {:?}), exact {want:?}", u.cross(v), u * v);
    } else {
        all = false;
    }
    // the same in the plane
    int2(t[0], t[1], t[3], t[4], o)?;
    int2_scale(t[0], t[1], k, o)?;
    o.class(!all as usize);
    Ok(())
}

fn sums<T: Int>(a: &[u32], o: &mut Obs) -> Verdict {
    let t: Vec<T> = a.iter().map(|&w| T::of(w)).collect();
    let v2: Vec<Vector2d<T>> = t.chunks_exact(2).map(|c| Vector2d { x: c[0], y: c[1] }).collect();
    let v3: Vec<Vector3d<T>> = t.chunks_exact(3).map(|c| Vector3d { x: c[0], y: c[1], z: c[2] }).collect();
    let exact = |k: usize, n: usize| {
        let c: Vec<(i64, i64, i64)> = t.chunks_exact(n).map(|c| (1, c[k].wide(), 1)).collect();
        sum::<T>(&c).map(T::from_wide)
    };
    let mut done = false;
    if let (Some(x), Some(y)) = (exact(0, 2), exact(1, 2)) {
        let want = Vector2d { x, y };
        let (p, q): (Vector2d<T>, Vector2d<T>) = (v2.iter().sum(), v2.iter().copied().sum());
        ensure!(p == want && q == want, "sum of {v2:?} = {p:?} / {q:?}");
        done = true;
    }
    if let (Some(x), Some(y), Some(z)) = (exact(0, 3), exact(1, 3), exact(2, 3)) {
        let want = Vector3d { x, y, z };
        let (p, q): (Vector3d<T>, Vector3d<T>) = (v3.iter().sum(), v3.iter().copied().sum());
        ensure!(p == want && q == want, "sum of {v3:?} = {p:?} / {q:?}");
        done = true;
    }
    if !done {
        o.trivial();
    }
    o.class(match v3.len() { 0 => 0, 1 => 1, 2..=8 => 2, _ => 3 });
    Ok(())
}

fn hostile_int<T: Int>(r: &mut Rng) -> u32 {
    let x = match r.below(10) {
        0 => T::LO + r.below(3) as i64,
        1 => T::HI - r.below(3) as i64,
        2..=4 => r.range(-3, 3),
        5 | 6 => r.range(-12, 12),
        7 => r.range(-200, 200),
        8 => {
            let k = r.below(32);
            let m = r.range(-2, 2);
            (1i64 << k) + m
        }
        _ => r.u32() as i32 as i64 >> r.below(31),
    };
    T::from_wide(if fits::<T>(x) { x } else { x.rem_euclid(T::HI) }).wide() as u32
}

/// A float component type.
trait Fl: Component + Copy + Debug + 'static {
    fn of(w: u32) -> Self;
    fn f(self) -> f32;
    fn left2(self, v: Vector2d<Self>) -> Vector2d<Self>;
    fn left3(self, v: Vector3d<Self>) -> Vector3d<Self>;
}
impl Fl for f32 {
    fn of(w: u32) -> Self { f32::from_bits(w) }
    fn f(self) -> f32 { self }
    fn left2(self, v: Vector2d<Self>) -> Vector2d<Self> { self.mul(v) }
    fn left3(self, v: Vector3d<Self>) -> Vector3d<Self> { self.mul(v) }
}
impl Fl for F32 {
    fn of(w: u32) -> Self { F32(f32::from_bits(w)) }
    fn f(self) -> f32 { self.0 }
    fn left2(self, v: Vector2d<Self>) -> Vector2d<Self> { self.mul(v) }
    fn left3(self, v: Vector3d<Self>) -> Vector3d<Self> { self.mul(v) }
}

fn same2<T: Fl>(a: Vector2d<T>, b: [f32; 2]) -> bool {
    same(a.x.f(), b[0]) && same(a.y.f(), b[1])
}
fn same3<T: Fl>(a: Vector3d<T>, b: [f32; 3]) -> bool {
    same(a.x.f(), b[0]) && same(a.y.f(), b[1]) && same(a.z.f(), b[2])
}

/// `got` against a sum of products, `n` roundings deep.
fn products(got: f32, terms: &[(f64, f32, f32)], o: &mut Obs, what: &str) -> Verdict {
    let (mut s, mut m) = (0.0f64, 0.0f64);
    let mut bad = false;
    for &(k, a, b) in terms {
        let t = k * a as f64 * b as f64;
        bad |= a.is_nan() || b.is_nan();
        s += t;
        m += t.abs();
    }
    if bad || terms.iter().any(|t| t.1.is_infinite() || t.2.is_infinite()) {
        // what IEEE arithmetic says of NaN and infinities, where the finite terms stay finite
        let fin: f64 = terms.iter().map(|t| t.0 * t.1 as f64 * t.2 as f64).filter(|t| t.is_finite()).map(f64::abs).sum();
        if fin < 1.7e38 {
            o.class(1);
            let ok = if s.is_nan() { got.is_nan() } else { got as f64 == s };
            ensure!(ok, "{what} = {got:?}, IEEE {s:?}");
        }
        return Ok(());
    }
    if m > 1.7e38 {
        return Ok(());
    }
    let bound = m * EPS * 1.001 * (terms.len() as f64) + 1.5e-45 * terms.len() as f64;
    let e = (got as f64 - s).abs();
    ensure!(o.within(0, e, bound), "{what} = {got:?}, exact {s:e}, bound {bound:e}");
    Ok(())
}

fn float<T: Fl>(a: &[u32], o: &mut Obs) -> Verdict {
    let t: Vec<T> = a.iter().map(|&w| T::of(w)).collect();
    let g: Vec<f32> = t.iter().map(|v| v.f()).collect();
    o.class(if g.iter().any(|v| v.is_nan()) { 2 } else if g.iter().any(|v| v.is_infinite()) { 3 } else { 0 });
    let k = t[6];
    let kf = g[6];
    let u = Vector3d { x: t[0], y: t[1], z: t[2] };
    let v = Vector3d { x: t[3], y: t[4], z: t[5] };
    let (p, q) = (Vector2d { x: t[0], y: t[1] }, Vector2d { x: t[3], y: t[4] });

    let mut c = u;
    c += v;
    let want = [g[0] + g[3], g[1] + g[4], g[2] + g[5]];
    ensure!(same3(u + v, want) && same3(c, want), "{u:?} + {v:?} = {:?} (+= {c:?})", u + v);
    let mut c = p;
    c += q;
    ensure!(same2(p + q, [want[0], want[1]]) && same2(c, [want[0], want[1]]), "{p:?} + {q:?} = {:?} (+= {c:?})", p + q);

    let mut c = u;
    c -= v;
    let want = [g[0] - g[3], g[1] - g[4], g[2] - g[5]];
    ensure!(same3(u - v, want) && same3(c, want), "{u:?} - {v:?} = {:?} (-= {c:?})", u - v);
    let mut c = p;
    c -= q;
    ensure!(same2(p - q, [want[0], want[1]]) && same2(c, [want[0], want[1]]), "{p:?} - {q:?} = {:?} (-= {c:?})", p - q);

    let mut c = u;
    c *= k;
    let want = [g[0] * kf, g[1] * kf, g[2] * kf];
    ensure!(same3(u * k, want) && same3(c, want) && same3(k.left3(u), want), "{u:?} * {k:?} = {:?} (*= {c:?}, from the left {:?})", u * k, k.left3(u));
    let mut c = p;
    c *= k;
    let w2 = [want[0], want[1]];
    ensure!(same2(p * k, w2) && same2(c, w2) && same2(k.left2(p), w2), "{p:?} * {k:?} = {:?} (*= {c:?}, from the left {:?})", p * k, k.left2(p));

    let mut c = u;
    c /= k;
    let want = [g[0] / kf, g[1] / kf, g[2] / kf];
    ensure!(same3(u / k, want) && same3(c, want), "{u:?} / {k:?} = {:?} (/= {c:?})", u / k);
    let mut c = p;
    c /= k;
    let w2 = [want[0], want[1]];
    ensure!(same2(p / k, w2) && same2(c, w2), "{p:?} / {k:?} = {:?} (/= {c:?})", p / k);

    let pr = |i: usize, j: usize| (1.0, g[i], g[j]);
    let mi = |i: usize, j: usize| (-1.0, g[i], g[j]);
    products(u.dot(v).f(), &[pr(0, 3), pr(1, 4), pr(2, 5)], o, "dot (3D)")?;
    products(Vector::dot(u, v).f(), &[pr(0, 3), pr(1, 4), pr(2, 5)], o, "Vector::dot (3D)")?;
    products(p.dot(q).f(), &[pr(0, 3), pr(1, 4)], o, "dot (2D)")?;
    products(Vector::dot(p, q).f(), &[pr(0, 3), pr(1, 4)], o, "Vector::dot (2D)")?;
    products(p.perpendicular_dot(q).f(), &[pr(0, 4), mi(1, 3)], o, "perpendicular_dot")?;
    for (c, what) in [(u.cross(v), "cross (3D)"), (u * v, "* (3D)")] {
        products(c.x.f(), &[pr(1, 5), mi(2, 4)], o, what)?;
        products(c.y.f(), &[pr(2, 3), mi(0, 5)], o, what)?;
        products(c.z.f(), &[pr(0, 4), mi(1, 3)], o, what)?;
    }
    let fin = [0, 1, 3, 4].iter().all(|&i| g[i].is_finite());
    for (c, what) in [(p.cross(q), "cross (2D)"), (p * q, "* (2D)")] {
        products(c.z.f(), &[pr(0, 4), mi(1, 3)], o, what)?;
        if fin {
            ensure!(c.x.f() == 0.0 && c.y.f() == 0.0, "{what} has x {:?} and y {:?}", c.x, c.y);
        }
    }
    Ok(())
}

fn float_sums<T: Fl>(a: &[u32], o: &mut Obs) -> Verdict {
    let t: Vec<T> = a.iter().map(|&w| T::of(w)).collect();
    let v2: Vec<Vector2d<T>> = t.chunks_exact(2).map(|c| Vector2d { x: c[0], y: c[1] }).collect();
    let v3: Vec<Vector3d<T>> = t.chunks_exact(3).map(|c| Vector3d { x: c[0], y: c[1], z: c[2] }).collect();
    o.class(match v3.len() { 0 => 0, 1 => 1, 2..=8 => 2, _ => 3 });
    let mut check = |got: f32, k: usize, n: usize| {
        let c: Vec<f64> = t.chunks_exact(n).map(|c| c[k].f() as f64).collect();
        let (s, m): (f64, f64) = (c.iter().sum(), c.iter().map(|x| x.abs()).sum());
        if m > 1.7e38 {
            return Ok(());
        }
        let e = (got as f64 - s).abs();
        ensure!(o.within(0, e, m * EPS * 1.001 * c.len() as f64 + 1e-60), "component {k} of the sum of {} vectors = {got:?}, exact {s:e}", c.len());
        Ok(())
    };
    let (p, q): (Vector2d<T>, Vector2d<T>) = (v2.iter().sum(), v2.iter().copied().sum());
    for s in [p, q] {
        check(s.x.f(), 0, 2)?;
        check(s.y.f(), 1, 2)?;
    }
    let (p, q): (Vector3d<T>, Vector3d<T>) = (v3.iter().sum(), v3.iter().copied().sum());
    for s in [p, q] {
        check(s.x.f(), 0, 3)?;
        check(s.y.f(), 1, 3)?;
        check(s.z.f(), 2, 3)?;
    }
    Ok(())
}

const IC: &[&str] = &["every result representable", "some result not representable", "negative operand", "zero scalar"];
const UC: &[&str] = &["every result representable", "some result not representable"];
const SC: &[&str] = &["no vectors", "one vector", "2 to 8 vectors", "more vectors"];
const FC: &[&str] = &["finite", "NaN or infinite terms judged", "NaN", "infinite"];

fn run_int<T: Int>(run: &mut Run, m3: &Mon, ms: &Mon) {
    let n = run.amount(3_000_000, 200_000_000);
    run.random(m3, n, |r, v| (0..7).for_each(|_| v.push(hostile_int::<T>(r))), int3::<T>);
    let n = run.amount(300_000, 20_000_000);
    run.random(
        ms,
        n,
        |r, v| {
            let k = match r.below(8) { 0 => 0, 1 => 3, 2 => 2, _ => r.below(60) };
            let k = k + 3 * r.below(2);
            let small = r.chance(2);
            for _ in 0..k {
                let x = if small { T::from_wide(r.range(if T::LO < 0 { -2 } else { 0 }, 2)).wide() as u32 } else { hostile_int::<T>(r) };
                v.push(x);
            }
        },
        sums::<T>,
    );
}

fn main() {
    let mut run = Run::new("C18", "pairs of vectors and a scalar of each component type; trivial: a sum that the component type cannot represent");
    run.assume("integer operations whose exact result, or an intermediate term of it, is outside the component type are unspecified; float dot and cross products may round once per term in any order");
    run.all(&Mon::new("2D i8, every pair").classes(&IC[..3]).fmt("u"), |a, o| {
        let [p, q, r, s] = a[0].to_le_bytes().map(|b| b as i8);
        int2(p, q, r, s, o)
    });
    run.all(&Mon::new("2D u8, every pair").classes(UC).fmt("u"), |a, o| {
        let [p, q, r, s] = a[0].to_le_bytes();
        int2(p, q, r, s, o)
    });
    run.range(&Mon::new("2D i8, every scalar").classes(IC).fmt("u"), 0, (1 << 24) - 1, |a, o| {
        let [p, q, r, _] = a[0].to_le_bytes().map(|b| b as i8);
        int2_scale(p, q, r, o)
    });
    run.range(&Mon::new("2D u8, every scalar").classes(UC).fmt("u"), 0, (1 << 24) - 1, |a, o| {
        let [p, q, r, _] = a[0].to_le_bytes();
        int2_scale(p, q, r, o)
    });
    run_int::<i8>(&mut run, &Mon::new("3D i8").classes(IC).fmt("i"), &Mon::new("Sum i8").classes(SC).fmt("i"));
    run_int::<i16>(&mut run, &Mon::new("i16").classes(IC).fmt("i"), &Mon::new("Sum i16").classes(SC).fmt("i"));
    run_int::<i32>(&mut run, &Mon::new("i32").classes(IC).fmt("i"), &Mon::new("Sum i32").classes(SC).fmt("i"));
    run_int::<u8>(&mut run, &Mon::new("3D u8").classes(UC).fmt("i"), &Mon::new("Sum u8").classes(SC).fmt("i"));
    run_int::<u16>(&mut run, &Mon::new("u16").classes(UC).fmt("i"), &Mon::new("Sum u16").classes(SC).fmt("i"));
    run_int::<u32>(&mut run, &Mon::new("u32").classes(UC).fmt("i"), &Mon::new("Sum u32").classes(SC).fmt("i"));

    let n = run.amount(6_000_000, 400_000_000);
    let g = |r: &mut Rng, v: &mut Vec<u32>| {
        let mode = r.below(6);
        let base = r.finite();
        for _ in 0..7 {
            let x = match mode {
                0 => r.any(),
                1 => r.moderate(-20, 20),
                2 => r.log(-2, 2),
                3 => r.related(base),
                _ => r.hostile(),
            };
            v.push(x.to_bits());
        }
    };
    run.random(&Mon::new("f32").classes(FC).metrics(&["dot, cross"]), n, g, float::<f32>);
    run.random(&Mon::new("F32").classes(FC).metrics(&["dot, cross"]), n / 2, g, float::<F32>);
    let n = run.amount(300_000, 20_000_000);
    let g = |r: &mut Rng, v: &mut Vec<u32>| {
        let k = match r.below(8) { 0 => 0, 1 => 3, 2 => 2, _ => r.below(90) };
        (0..k).for_each(|_| v.push(r.moderate(-30, 30).to_bits()));
    };
    run.random(&Mon::new("Sum f32").classes(SC).metrics(&["sum"]), n, g, float_sums::<f32>);
    run.random(&Mon::new("Sum F32").classes(SC).metrics(&["sum"]), n, g, float_sums::<F32>);
    run.finish()
}
