//! C19: what is put into a vector comes out of it again, by every way in and every way out, and
//! nothing else does.
use micromath::vector::{Component, F32x2, F32x3, I16x2, I16x3, I8x2, I8x3, U16x2, U16x3, U8x2, U8x3, Vector, Vector2d, Vector3d};
use mmverif::{ensure, iterator_protocol, panics, spec::*, Mon, Obs, Rng, Run, Verdict, F32};
use std::fmt::Debug;

trait Comp: Component + Copy + Debug + 'static {
    fn of(w: u32) -> Self;
    /// The identity of the value: what has to survive.
    fn id(self) -> u32;
}
macro_rules! int {
    ($($t:ty),*) => {$( impl Comp for $t { fn of(w: u32) -> Self { w as $t } fn id(self) -> u32 { self as u32 } } )*};
}
int!(i8, i16, i32, u8, u16, u32);
impl Comp for f32 {
    fn of(w: u32) -> Self { f(w) }
    fn id(self) -> u32 { if self.is_nan() { 0x7fc0_0000 } else { self.to_bits() } }
}
impl Comp for F32 {
    fn of(w: u32) -> Self { F32(f(w)) }
    fn id(self) -> u32 { self.0.id() }
}

/// An index from `idx`: every other one next to a power of two, which truncation brings in range.
fn far(idx: usize, n: usize) -> usize {
    if idx & 1 == 1 { (1 << (2 + (idx >> 1) % 62)) + idx % n } else { idx }
}

/// Everything a `Vector` lets one read, against the components that were put in.
fn readable<T: Comp, V: Vector<T>>(v: V, t: &[T], idx: usize, what: &str) -> Verdict {
    let n = t.len();
    let id: Vec<u32> = t.iter().map(|c| c.id()).collect();
    ensure!(V::AXES == n, "{what}: AXES is {}", V::AXES);
    for i in 0..n {
        ensure!(v.get(i).map(|c| c.id()) == Some(id[i]), "{what}: get({i}) = {:?}, put in {t:?}", v.get(i));
    }
    for i in [n, n + 1, 255, 256, usize::MAX, usize::MAX - 1, n + idx, far(idx | 1, n)] {
        ensure!(v.get(i).is_none(), "{what}: get({i}) = {:?}", v.get(i));
    }
    let mut it = v.iter();
    for i in 0..n {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= n - i && hi.is_none_or(|h| h >= n - i), "{what}: size_hint {:?} with {} components left", it.size_hint(), n - i);
        // a clone made half way goes its own way
        let rest: Vec<u32> = it.clone().map(|c| c.id()).collect();
        ensure!(rest == id[i..], "{what}: clone of the iterator after {i} components: {rest:x?}, put in {id:x?}");
        let c = it.next();
        ensure!(c.map(|c| c.id()) == Some(id[i]), "{what}: component {i} of iter() = {c:?}, put in {t:?}");
    }
    for _ in 0..3 {
        let c = it.next();
        ensure!(c.is_none(), "{what}: iter() yields {c:?} after the end");
    }
    ensure!(v.iter().count() == n && v.iter().last().map(|c| c.id()) == Some(id[n - 1]) && v.iter().nth(n).is_none(), "{what}: count, last or nth of iter()");
    let part = mmverif::gen::mix(id[0] as u64 ^ (idx as u64) << 32) as u32 as usize;
    if part & 7 == 0 {
        iterator_protocol(|| v.iter(), &id, |c| c.id(), part >> 3).map_err(|e| format!("{what}: iter(): {e}"))?;
    }
    let mut seen = vec![];
    let mut m = v;
    let copy = m.map(|c| {
        seen.push(c.id());
        c
    });
    ensure!(seen == id, "{what}: map called its function with {seen:x?}, put in {id:x?}");
    let got: Vec<u32> = copy.iter().map(|c| c.id()).collect();
    ensure!(got == id, "{what}: map with the identity made {copy:?}");
    let mut k = 0;
    let turned = m.map(|_| {
        k += 1;
        t[n - k]
    });
    let got: Vec<u32> = turned.iter().map(|c| c.id()).collect();
    let want: Vec<u32> = id.iter().rev().copied().collect();
    ensure!(got == want, "{what}: map to {:?} made {turned:?}", want);
    Ok(())
}

fn both<T: Comp>(a: &[u32], o: &mut Obs) -> Verdict {
    let t: Vec<T> = a[..3].iter().map(|&w| T::of(w)).collect();
    let (x, y, z) = (t[0], t[1], t[2]);
    let idx = a[3] as usize;
    o.class(match idx { 0..=2 => 0, 3..=255 => 1, _ => 2 });
    let two: [(&str, Vector2d<T>); 5] = [
        ("fields", Vector2d { x, y }),
        ("tuple", (x, y).into()),
        ("array", [x, y].into()),
        ("from_slice", Vector2d::from_slice(&t[..2])),
        ("from_iter", [x, y].into_iter().collect()),
    ];
    for (what, v) in two {
        ensure!(v.x.id() == x.id() && v.y.id() == y.id(), "2D {what}: fields of {v:?}, put in {x:?}, {y:?}");
        readable(v, &t[..2], idx, what)?;
        ensure!(v[0].id() == x.id() && v[1].id() == y.id(), "2D {what}: index of {v:?}");
        let (p, q): (T, T) = v.into();
        ensure!(p.id() == x.id() && q.id() == y.id(), "2D {what}: tuple of {v:?} = ({p:?}, {q:?})");
        let r: [T; 2] = v.into();
        let s = v.to_array();
        ensure!([r[0], r[1], s[0], s[1]].map(|c| c.id()) == [x, y, x, y].map(|c| c.id()), "2D {what}: array of {v:?} = {r:?} / {s:?}");
        if idx >= 2 {
            let i = far(idx, 2);
            ensure!(panics(|| v[i]).is_err(), "2D {what}: [{i}] = {:?}", v[i]);
        }
        let up = Vector3d::from(v);
        ensure!(up.x.id() == x.id() && up.y.id() == y.id() && up.z.id() == T::default().id(), "3D from 2D {v:?} = {up:?}");
    }
    let three: [(&str, Vector3d<T>); 5] = [
        ("fields", Vector3d { x, y, z }),
        ("tuple", (x, y, z).into()),
        ("array", [x, y, z].into()),
        ("from_slice", Vector3d::from_slice(&t)),
        ("from_iter", t.iter().copied().collect()),
    ];
    for (what, v) in three {
        ensure!(v.x.id() == x.id() && v.y.id() == y.id() && v.z.id() == z.id(), "3D {what}: fields of {v:?}, put in {t:?}");
        readable(v, &t, idx, what)?;
        ensure!(v[0].id() == x.id() && v[1].id() == y.id() && v[2].id() == z.id(), "3D {what}: index of {v:?}");
        let (p, q, r): (T, T, T) = v.into();
        ensure!([p, q, r].map(|c| c.id()) == [x, y, z].map(|c| c.id()), "3D {what}: tuple of {v:?} = ({p:?}, {q:?}, {r:?})");
        let r: [T; 3] = v.into();
        ensure!(r.map(|c| c.id()) == [x, y, z].map(|c| c.id()) && v.to_array().map(|c| c.id()) == [x, y, z].map(|c| c.id()), "3D {what}: array of {v:?} = {r:?} / {:?}", v.to_array());
        if idx >= 3 {
            let i = far(idx, 3);
            ensure!(panics(|| v[i]).is_err(), "3D {what}: [{i}] = {:?}", v[i]);
        }
    }
    // equality is that of the components
    let (p, q) = (Vector2d { x, y }, Vector2d { x: z, y });
    ensure!((p == q) == (x == z && y == y) && (p != q) != (p == q), "{p:?} == {q:?}");
    let q = Vector2d { x, y: z };
    ensure!((p == q) == (x == x && y == z), "{p:?} == {q:?}");
    for (u, v) in [([x, y, z], [y, y, z]), ([x, y, z], [x, z, z]), ([x, y, z], [x, y, x]), ([x, y, z], [x, y, z]), ([x, y, z], [z, y, x])] {
        let want = u[0] == v[0] && u[1] == v[1] && u[2] == v[2];
        let (u, v) = (Vector3d::from(u), Vector3d::from(v));
        ensure!((u == v) == want && (u != v) == !want, "{u:?} == {v:?} is {}", u == v);
    }
    // also next to each other, or of the same length
    for (axis, m) in [(0, 1), (1, 1), (2, 1), (0, 1 << 31), (1, 1 << 31), (2, 1 << (a[3] & 31)), (a[3] as usize % 3, 1 << (a[3] >> 5 & 31))] {
        let mut w = t.clone();
        w[axis] = T::of(a[axis] ^ m);
        let want = w[axis] == t[axis] && x == x && y == y && z == z;
        let (u, v) = (Vector3d::from((x, y, z)), Vector3d::from((w[0], w[1], w[2])));
        ensure!((u == v) == want && (v == u) == want && (u != v) == !want, "{u:?} == {v:?} is {}", u == v);
        let want = w[0] == x && w[1] == y;
        let (u, v) = (Vector2d::from((x, y)), Vector2d::from((w[0], w[1])));
        ensure!((u == v) == want && (v == u) == want && (u != v) == !want, "{u:?} == {v:?} is {}", u == v);
    }
    let zero = Vector3d::<T>::default();
    let zero2 = Vector2d::<T>::default();
    let d = T::default().id();
    ensure!(d == 0 && zero.to_array().map(|c| c.id()) == [d; 3] && zero2.to_array().map(|c| c.id()) == [d; 2], "default: {zero:?}, {zero2:?}");
    Ok(())
}

/// Only the right number of components makes a vector.
fn sizes<T: Comp>(a: &[u32], o: &mut Obs) -> Verdict {
    let t: Vec<T> = a.iter().map(|&w| T::of(w)).collect();
    let n = t.len();
    o.class(match n { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4, _ => 5 });
    let ways: [(&str, Result<Vec<u32>, String>, usize); 6] = [
        ("Vector2d::from_slice", panics(|| Vector2d::from_slice(&t).iter().map(|c| c.id()).collect()), 2),
        ("Vector3d::from_slice", panics(|| Vector3d::from_slice(&t).iter().map(|c| c.id()).collect()), 3),
        ("Vector2d::from_iter", panics(|| t.iter().copied().collect::<Vector2d<T>>().iter().map(|c| c.id()).collect()), 2),
        ("Vector3d::from_iter", panics(|| t.iter().copied().collect::<Vector3d<T>>().iter().map(|c| c.id()).collect()), 3),
        // an iterator which does not know its length
        ("Vector2d::from_iter (filter)", panics(|| t.iter().copied().filter(|_| true).collect::<Vector2d<T>>().iter().map(|c| c.id()).collect()), 2),
        ("Vector3d::from_iter (filter)", panics(|| t.iter().copied().filter(|_| true).collect::<Vector3d<T>>().iter().map(|c| c.id()).collect()), 3),
    ];
    for (what, r, axes) in ways {
        match r {
            Ok(v) => {
                let want: Vec<u32> = t.iter().map(|c| c.id()).collect();
                ensure!(n == axes && v == want, "{what} of {n} components made {v:x?} from {want:x?}");
            }
            Err(e) => ensure!(n != axes, "{what} of {n} components panicked: {e}"),
        }
    }
    Ok(())
}

macro_rules! widen {
    ($t:ty, $x2:ty, $x3:ty) => {
        |a: &[u32], o: &mut Obs| -> Verdict {
            // every value, in every component, among others derived from it
            let x = a[0] as $t;
            let r = mmverif::gen::mix(a[0] as u64);
            let (y, z) = (r as $t, (r >> 20) as $t);
            o.class((x as i64 != 0) as usize);
            for [x, y, z] in [[x, y, z], [y, x, z], [z, y, x], [x, x, x]] {
                let v = F32x2::from(<$x2>::from((x, y)));
                ensure!(v.x == x as f32 && v.y == y as f32, "F32x2 from ({x}, {y}) = {v:?}");
                let v = F32x3::from(<$x3>::from((x, y, z)));
                ensure!(v.x == x as f32 && v.y == y as f32 && v.z == z as f32, "F32x3 from ({x}, {y}, {z}) = {v:?}");
            }
            Ok(())
        }
    };
}

fn run_type<T: Comp>(run: &mut Run, m: &Mon, ms: &Mon) {
    let word = |r: &mut Rng| match r.below(4) {
        0 => r.any().to_bits(),
        1 => r.below(4) as u32,
        _ => r.u32(),
    };
    let n = run.amount(120_000, 8_000_000);
    run.random(
        m,
        n,
        move |r, v| {
            let base = word(r);
            (0..3).for_each(|_| v.push(if r.chance(3) { base } else { word(r) }));
            v.push(match r.below(4) { 0 => r.below(3) as u32, 1 => r.below(256) as u32, 2 => 3, _ => r.u32() });
        },
        both::<T>,
    );
    let n = run.amount(20_000, 1_000_000);
    run.random(ms, n, move |r, v| (0..r.below(7)).for_each(|_| v.push(word(r))), sizes::<T>);
}

fn main() {
    let mut run = Run::new("C19", "components of each type put into vectors in every way; every value of the types that widen to f32");
    const C: &[&str] = &["index in range", "index out of range", "large index"];
    const S: &[&str] = &["0 components", "1 component", "2 components", "3 components", "4 components", "more components"];
    macro_rules! ty {
        ($($t:ty),*) => {$(
            run_type::<$t>(&mut run, &Mon::new(stringify!($t)).classes(C).fmt("u"), &Mon::new(concat!("sizes ", stringify!($t))).classes(S).fmt("u"));
        )*};
    }
    ty!(i8, i16, i32, u8, u16, u32, f32, F32);
    const W: &[&str] = &["zero", "other"];
    run.range(&Mon::new("every i8 to f32").classes(W).fmt("u"), 0, 0xff, widen!(i8, I8x2, I8x3));
    run.range(&Mon::new("every u8 to f32").classes(W).fmt("u"), 0, 0xff, widen!(u8, U8x2, U8x3));
    run.range(&Mon::new("every i16 to f32").classes(W).fmt("u"), 0, 0xffff, widen!(i16, I16x2, I16x3));
    run.range(&Mon::new("every u16 to f32").classes(W).fmt("u"), 0, 0xffff, widen!(u16, U16x2, U16x3));
    let n = run.amount(500_000, 50_000_000);
    run.random(&Mon::new("F32 to f32"), n, |r, v| (0..3).for_each(|_| v.push(r.any().to_bits())), |a, _| {
        let [x, y, z] = [a[0], a[1], a[2]].map(f);
        let v: F32x3 = Vector3d { x: F32(x), y: F32(y), z: F32(z) }.into();
        ensure!(same_bits(v.x, x) && same_bits(v.y, y) && same_bits(v.z, z), "F32x3 from Vector3d<F32> = {v:?}");
        Ok(())
    });
    run.finish()
}
