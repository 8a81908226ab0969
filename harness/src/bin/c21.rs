//! C21: quaternion arithmetic is Hamilton's, and what is put into a quaternion comes out of it.
use micromath::vector::{Component, Vector3d};
use micromath::Quaternion;
use mmverif::{ensure, spec::*, Mon, Obs, Rng, Run, Verdict, F32};

fn same4(q: Quaternion, w: [f32; 4]) -> bool {
    q.to_array().iter().zip(w).all(|(&a, b)| same(a, b))
}

/// A sum of signed products, against the exact sum.
fn products(got: f32, terms: &[(f64, f32, f32)], o: &mut Obs, what: &str) -> Verdict {
    let s: f64 = terms.iter().map(|t| t.0 * t.1 as f64 * t.2 as f64).sum();
    let m: f64 = terms.iter().map(|t| (t.1 as f64 * t.2 as f64).abs()).sum();
    if terms.iter().any(|t| t.1.is_nan() || t.2.is_nan()) {
        ensure!(got.is_nan(), "{what} = {got:?}, of NaN");
        return Ok(());
    }
    if !m.is_finite() || m > 1.7e38 {
        return Ok(());
    }
    let bound = m * EPS * 1.001 * terms.len() as f64 + 1.5e-45 * terms.len() as f64;
    let e = (got as f64 - s).abs();
    ensure!(o.within(0, e, bound), "{what} = {got:?}, exact {s:e}, bound {bound:e}");
    Ok(())
}

fn algebra(a: &[u32], o: &mut Obs) -> Verdict {
    let g: Vec<f32> = a.iter().map(|&w| f(w)).collect();
    let [p0, p1, p2, p3] = [g[0], g[1], g[2], g[3]];
    let [q0, q1, q2, q3] = [g[4], g[5], g[6], g[7]];
    let k = g[8];
    o.class(if g.iter().any(|v| v.is_nan()) { 1 } else if g.iter().any(|v| v.is_infinite()) { 2 } else { 0 });
    let (p, q) = (Quaternion::new(p0, p1, p2, p3), Quaternion::new(q0, q1, q2, q3));

    // in and out
    let ways = [p, Quaternion::from((p0, p1, p2, p3)), Quaternion::from([p0, p1, p2, p3])];
    for w in ways {
        let t: (f32, f32, f32, f32) = w.into();
        let r: [f32; 4] = w.into();
        let outs = [w.to_array(), r, [t.0, t.1, t.2, t.3], [w.w(), w.x(), w.y(), w.z()]];
        for x in outs {
            ensure!(x.iter().zip(&g).all(|(a, b)| same_bits(*a, *b)), "read back {x:?} from the components {:?}", &g[..4]);
        }
    }
    ensure!((p == q) == (p0 == q0 && p1 == q1 && p2 == q2 && p3 == q3) && (p != q) != (p == q), "==");
    for i in 0..4 {
        let mut c = [p0, p1, p2, p3];
        c[i] = g[4 + i];
        let r = Quaternion::from(c);
        let want = c.iter().zip(&g).all(|(a, b)| a == b);
        ensure!((p == r) == want && (r == p) == want, "{p:?} == {r:?}");
    }
    // close by, or of the same rotation, is not equal
    let near = |m: u32| [p0, p1, p2, p3].map(|c| f(c.to_bits() ^ m));
    let alike = [near(1 << 31), near(1), near(1 << (a[8] & 31)), [p0, -p1, -p2, -p3], [p1, p0, p2, p3], [p0, p1, p3, p2], [p0, p2, p3, p1]];
    for c in alike {
        let r = Quaternion::from(c);
        let want = c.iter().zip(&g).all(|(a, b)| a == b);
        ensure!((p == r) == want && (r == p) == want && (p != r) == !want, "{p:?} == {r:?} is {}", p == r);
    }

    // component-wise
    let want = [p0 + q0, p1 + q1, p2 + q2, p3 + q3];
    let mut c = p;
    c += q;
    ensure!(same4(p + q, want) && same4(c, want), "{p:?} + {q:?} = {:?} (+= {c:?})", p + q);
    let want = [p0 - q0, p1 - q1, p2 - q2, p3 - q3];
    let mut c = p;
    c -= q;
    ensure!(same4(p - q, want) && same4(c, want), "{p:?} - {q:?} = {:?} (-= {c:?})", p - q);
    let want = [p0 * k, p1 * k, p2 * k, p3 * k];
    let mut c = p;
    c *= k;
    ensure!(
        same4(p * k, want) && same4(c, want) && same4(k * p, want) && same4(p.scale(k), want) && same4(p.scale(F32(k)), want),
        "{p:?} * {k:?} = {:?} (*= {c:?}, from the left {:?}, scale {:?})", p * k, k * p, p.scale(k)
    );
    let (i, j) = (a[8] as i8, (a[8] >> 8) as u16);
    ensure!(same4(p.scale(i), [p0, p1, p2, p3].map(|c| c * i as f32)), "scale({i}i8)");
    ensure!(same4(p.scale(j), [p0, p1, p2, p3].map(|c| c * j as f32)), "scale({j}u16)");
    ensure!(same4(p.conj(), [p0, -p1, -p2, -p3]), "conj of {p:?} = {:?}", p.conj());
    let v = Quaternion::from(Vector3d { x: p1, y: p2, z: p3 });
    ensure!(same4(v, [0.0, p1, p2, p3]), "from a vector: {v:?}");

    // products
    products(p.dot(q), &[(1.0, p0, q0), (1.0, p1, q1), (1.0, p2, q2), (1.0, p3, q3)], o, "dot")?;
    products(p.norm(), &[(1.0, p0, p0), (1.0, p1, p1), (1.0, p2, p2), (1.0, p3, p3)], o, "norm")?;
    let [r0, r1, r2, r3] = (p * q).to_array();
    products(r0, &[(1.0, p0, q0), (-1.0, p1, q1), (-1.0, p2, q2), (-1.0, p3, q3)], o, "w of the product")?;
    products(r1, &[(1.0, p0, q1), (1.0, p1, q0), (1.0, p2, q3), (-1.0, p3, q2)], o, "x of the product")?;
    products(r2, &[(1.0, p0, q2), (-1.0, p1, q3), (1.0, p2, q0), (1.0, p3, q1)], o, "y of the product")?;
    products(r3, &[(1.0, p0, q3), (1.0, p1, q2), (-1.0, p2, q1), (1.0, p3, q0)], o, "z of the product")?;
    if g.iter().all(|v| v.is_finite()) && p.to_array().iter().all(|v| v.abs() < 1e30) {
        let (l, r) = (Quaternion::IDENTITY * p, p * Quaternion::default());
        ensure!(l == p && r == p, "1 * {p:?} = {l:?}, {p:?} * 1 = {r:?}");
    }
    Ok(())
}

/// Small integers, on which f32 arithmetic is exact: the ring axioms hold on the nose.
fn ring(a: &[u32], o: &mut Obs) -> Verdict {
    let n: Vec<i64> = a.iter().map(|&w| w as i32 as i64).collect();
    let q = |i: usize| Quaternion::new(n[i] as f32, n[i + 1] as f32, n[i + 2] as f32, n[i + 3] as f32);
    let (p, q, r) = (q(0), q(4), q(8));
    ensure!((p * q) * r == p * (q * r), "({p:?} * {q:?}) * {r:?}: not associative");
    ensure!(p * (q + r) == p * q + p * r && (p + q) * r == p * r + q * r, "not distributive: {p:?}, {q:?}, {r:?}");
    ensure!((p * q).norm() == p.norm() * q.norm(), "norm of {p:?} * {q:?} = {}, {} * {}", (p * q).norm(), p.norm(), q.norm());
    ensure!((p * q).conj() == q.conj() * p.conj(), "conjugate of {p:?} * {q:?}");
    ensure!(p * p.conj() == Quaternion::new(p.norm(), 0.0, 0.0, 0.0), "{p:?} times its conjugate = {:?}", p * p.conj());
    ensure!((p.conj() * q).w() == p.dot(q) && p.dot(q) == q.dot(p) && p.dot(p) == p.norm(), "dot of {p:?}, {q:?} = {}", p.dot(q));
    ensure!((p + q) - q == p && p - p == Quaternion::new(0.0, 0.0, 0.0, 0.0), "{p:?} + {q:?} - {q:?}");
    o.class((p * q == q * p) as usize);
    Ok(())
}

/// `i² = j² = k² = ijk = -1`, and the multiplication table.
fn table(a: &[u32], _: &mut Obs) -> Verdict {
    let unit = |n: usize, s: f32| {
        let mut c = [0.0; 4];
        c[n] = s;
        Quaternion::from(c)
    };
    // row x column: index and sign
    const T: [[(usize, f32); 4]; 4] = [
        [(0, 1.), (1, 1.), (2, 1.), (3, 1.)],
        [(1, 1.), (0, -1.), (3, 1.), (2, -1.)],
        [(2, 1.), (3, -1.), (0, -1.), (1, 1.)],
        [(3, 1.), (2, 1.), (1, -1.), (0, -1.)],
    ];
    let (r, c, s) = ((a[0] & 3) as usize, (a[0] >> 2 & 3) as usize, a[0] >> 4);
    let (sr, sc) = (if s & 1 == 0 { 1. } else { -1. }, if s & 2 == 0 { 1. } else { -1. });
    let got = unit(r, sr) * unit(c, sc);
    let (i, sign) = T[r][c];
    let want = unit(i, sign * sr * sc);
    ensure!(got == want, "{:?} * {:?} = {got:?}, by the table {want:?}", unit(r, sr), unit(c, sc));
    ensure!(unit(1, 1.) * unit(2, 1.) * unit(3, 1.) == unit(0, -1.), "ijk");
    ensure!(Quaternion::IDENTITY == unit(0, 1.) && Quaternion::default() == Quaternion::IDENTITY, "identity");
    Ok(())
}

fn from_vector<C: Component + Into<f32>>(v: Vector3d<C>) -> Verdict {
    let q = Quaternion::from(v);
    ensure!(same4(q, [0.0, v.x.into(), v.y.into(), v.z.into()]), "quaternion from {v:?} = {q:?}");
    Ok(())
}

fn main() {
    let mut run = Run::new("C21", "pairs of quaternions and a scalar; no case is trivial");
    run.assume("products may round once per term in any order; products with infinite components or overflowing terms are unspecified");
    let n = run.amount(40_000_000, 500_000_000);
    run.random(
        &Mon::new("algebra").classes(&["finite", "NaN", "infinite"]).metrics(&["products"]),
        n,
        |r, v| {
            let mode = r.below(6);
            let base = r.finite();
            for _ in 0..9 {
                let x = match mode {
                    0 => r.any(),
                    1 => r.moderate(-20, 20),
                    2 => r.log(-2, 2),
                    3 => r.related(base),
                    4 => r.intish(),
                    _ => r.hostile(),
                };
                v.push(x.to_bits());
            }
        },
        algebra,
    );
    let n = run.amount(20_000_000, 300_000_000);
    run.random(
        &Mon::new("ring axioms").classes(&["do not commute", "commute"]).fmt("i"),
        n,
        |r: &mut Rng, v| {
            let k = r.pick(&[1i64, 3, 10, 16]);
            (0..12).for_each(|_| v.push(if r.chance(6) { 0 } else { r.range(-k, k) } as u32));
        },
        ring,
    );
    run.enumerate(&Mon::new("multiplication table").fmt("u"), 64, |i, v| v.push(i as u32), table);
    let n = run.amount(300_000, 20_000_000);
    run.random(
        &Mon::new("from vectors of every type").fmt("u"),
        n,
        |r, v| (0..3).for_each(|_| v.push(if r.chance(2) { r.u32() } else { r.any().to_bits() })),
        |a, _| {
            let [x, y, z] = [a[0], a[1], a[2]];
            from_vector(Vector3d { x: x as i8, y: y as i8, z: z as i8 })?;
            from_vector(Vector3d { x: x as u8, y: y as u8, z: z as u8 })?;
            from_vector(Vector3d { x: x as i16, y: y as i16, z: z as i16 })?;
            from_vector(Vector3d { x: x as u16, y: y as u16, z: z as u16 })?;
            from_vector(Vector3d { x: f(x), y: f(y), z: f(z) })?;
            from_vector(Vector3d { x: F32(f(x)), y: F32(f(y)), z: F32(f(z)) })
        },
    );
    run.finish()
}
