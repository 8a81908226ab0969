//! C17: F32 is transparent to f32: operators, comparisons, conversions, text, sums, constants.
use mmverif::{ensure, spec::*, F32Ext, Mon, Obs, Rng, Run, Verdict, F32};
use micromath::num_traits::{Num, One, Zero};
use std::cmp::Ordering;
use std::fmt::Write;
use std::str::FromStr;

const CLASSES: &[&str] = &["NaN", "infinite", "finite", "equal", "less", "greater", "zeros of either sign"];

macro_rules! op {
    ($x:expr, $y:expr, $name:literal, $op:tt, $assign:tt, $full:tt) => {{
        let want = $x $op $y;
        let a = (F32($x) $op F32($y)).0;
        let b = (F32($x) $op $y).0;
        let c = ($x $op F32($y)).0;
        ensure!(same_bits(a, want) && same_bits(b, want) && same_bits(c, want), "x {} y: F32,F32 {:?}; F32,f32 {:?}; f32,F32 {:?}; f32 {:?}", $name, a, b, c, want);
        let mut d = F32($x);
        d $assign F32($y);
        ensure!(same_bits(d.0, want), "x {}= y: F32,F32 {:?}; f32 {:?}", $name, d.0, want);
        op!(@ $full, $x, $y, $name, $assign, want);
    }};
    (@ true, $x:expr, $y:expr, $name:literal, $assign:tt, $want:ident) => {{
        let mut e = F32($x);
        e $assign $y;
        let mut g: f32 = $x;
        g $assign F32($y);
        ensure!(same_bits(e.0, $want) && same_bits(g, $want), "x {}= y: F32,f32 {:?}; f32,F32 {:?}; f32 {:?}", $name, e.0, g, $want);
    }};
    (@ false, $x:expr, $y:expr, $name:literal, $assign:tt, $want:ident) => {{
        let mut e = F32($x);
        e $assign $y;
        ensure!(same_bits(e.0, $want), "x {}= y: F32,f32 {:?}; f32 {:?}", $name, e.0, $want);
    }};
}

fn pairs(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y) = (f(a[0]), f(a[1]));
    o.class(if x.is_nan() || y.is_nan() { 0 } else if x.is_infinite() || y.is_infinite() { 1 } else { 2 });
    op!(x, y, "+", +, +=, true);
    op!(x, y, "-", -, -=, true);
    op!(x, y, "*", *, *=, true);
    op!(x, y, "/", /, /=, true);
    op!(x, y, "%", %, %=, false);
    let (v, w) = (F32(x), F32(y));
    let eq = x == y;
    ensure!((v == w) == eq && (v == y) == eq && (x == w) == eq, "==: {} {} {}, f32 {eq}", v == w, v == y, x == w);
    ensure!((v != w) != eq, "!=");
    let cmp = x.partial_cmp(&y);
    ensure!(v.partial_cmp(&w) == cmp && v.partial_cmp(&y) == cmp && x.partial_cmp(&w) == cmp, "partial_cmp: {:?} {:?} {:?}, f32 {cmp:?}", v.partial_cmp(&w), v.partial_cmp(&y), x.partial_cmp(&w));
    ensure!((v < w) == (x < y) && (v <= w) == (x <= y) && (v > w) == (x > y) && (v >= w) == (x >= y), "comparison operators");
    ensure!((v < y) == (x < y) && (v <= y) == (x <= y) && (x > w) == (x > y) && (x >= w) == (x >= y), "mixed comparison operators");
    match cmp {
        Some(Ordering::Equal) => {
            o.class(3);
            if x.to_bits() != y.to_bits() {
                o.class(6);
            }
        }
        Some(Ordering::Less) => o.class(4),
        Some(Ordering::Greater) => o.class(5),
        None => {}
    }
    Ok(())
}

fn unary(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    o.class(if x.is_nan() { 0 } else if x.is_infinite() { 1 } else { 2 });
    let v = F32::from(x);
    let back: f32 = v.into();
    ensure!(same_bits(back, x) && same_bits(v.0, x), "f32 -> F32 -> f32 = {back:?}");
    ensure!(same_bits((-v).0, -x), "-x = {:?}", (-v).0);
    ensure!(v.is_zero() == (x == 0.0) && v.is_one() == (x == 1.0), "is_zero {} is_one {}", v.is_zero(), v.is_one());
    let b = a[0];
    ensure!(F32::from(b as i8).0 == b as i8 as f32, "F32::from({}i8)", b as i8);
    ensure!(F32::from(b as u8).0 == b as u8 as f32, "F32::from({}u8)", b as u8);
    ensure!(F32::from(b as i16).0 == b as i16 as f32, "F32::from({}i16)", b as i16);
    ensure!(F32::from(b as u16).0 == b as u16 as f32, "F32::from({}u16)", b as u16);
    Ok(())
}

fn triple(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y, z) = (f(a[0]), f(a[1]), f(a[2]));
    let got = F32(x).mul_add(F32(y), F32(z)).0;
    let ext = F32Ext::mul_add(x, y, z);
    ensure!(same_bits(got, ext), "mul_add: F32 {got:?}, F32Ext {ext:?}");
    let p = x as f64 * y as f64;
    let want = p + z as f64;
    if x.is_nan() || y.is_nan() || z.is_nan() || want.is_nan() {
        o.class(0);
        o.trivial();
        ensure!(got.is_nan(), "mul_add = {got:?}, expected NaN");
        return Ok(());
    }
    if p.abs() > 3.4e38 || want.abs() > 3.4e38 {
        o.class(1);
        o.trivial();
        return Ok(());
    }
    o.class(2);
    // fused, or rounded twice
    let bound = (p.abs() + want.abs()) * EPS * 1.01 + 1.5e-45;
    let e = (got as f64 - want).abs();
    ensure!(o.within(0, e, bound), "mul_add = {got:?}, exact {want:e}");
    Ok(())
}

struct Sink(usize, String);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1.len() + s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.1.push_str(s);
        Ok(())
    }
}

/// Whether it parses; it must just if f32 does, with the same value or error.
fn parses(s: &str, radices: impl IntoIterator<Item = u32>) -> Result<bool, String> {
let want = f32::from_str(s);
    let got = F32::from_str(s);
    let parsed: Result<F32, _> = s.parse();
    match (&want, &got) {
        (Ok(w), Ok(g)) => ensure!(same_bits(*w, g.0), "from_str({s:?}) = {g:?}, f32 {w:?}"),
        (Err(w), Err(g)) => ensure!(w == g, "from_str({s:?}): error {g:?}, f32 {w:?}"),
        _ => return Err(format!("from_str({s:?}) = {got:?}, f32 {want:?}")),
    }
    ensure!(parsed.is_ok() == want.is_ok(), "parse({s:?})");
    for radix in radices {
        let want = <f32 as Num>::from_str_radix(s, radix);
        let got = F32::from_str_radix(s, radix);
        match (&want, &got) {
            (Ok(w), Ok(g)) => ensure!(same_bits(*w, g.0), "from_str_radix({s:?}, {radix}) = {g:?}, f32 {w:?}"),
            (Err(_), Err(_)) => {}
            _ => return Err(format!("from_str_radix({s:?}, {radix}) = {got:?}, f32 {want:?}")),
        }
    }
    Ok(want.is_ok())
}

const PIECES: &[&str] = &[
    "inf", "INF", "Infinity", "infinity", "infinit", "nan", "NaN", "NAN", "-", "+", "--", "+-", ".", "..", "e", "E", "e+", "e-", "_", " ", "\t", "\n", "\0", "f32", "f", "0x", "0b", ",", "1", "0", "00000000000000000000", "9", "99999999999999999999", "7f",
    "e38", "e39", "e-45", "e-46", "e-60", "e400", "e-400", "e99999999999", "1.17549435", "3.4028235", "3.4028236", "p3", "٣", "\u{2212}", "\u{a0}", "d", "z", "Z",
];

fn parsing(a: &[u32], o: &mut Obs) -> Verdict {
    let s: String = a.iter().filter_map(|&c| char::from_u32(c)).collect();
    o.class(parses(&s, 2..=36)? as usize);
    Ok(())
}

fn strange_text(g: &mut Rng, v: &mut Vec<u32>) {
    let mut s = String::new();
    match g.below(5) {
        0 => (0..g.below(5)).for_each(|_| s.push_str(PIECES[g.below(PIECES.len() as u64) as usize])),
        // many digits, next to the middle of two floats
        1 => {
            let x = g.any();
            let (x, y) = (x as f64, f(x.to_bits().wrapping_add(1)) as f64);
            s = format!("{:.*}", g.below(60) as usize, (x + y) / 2.0);
            if g.chance(2) {
                s.push_str(["0", "1", "000000000000000000000000000001"][g.below(3) as usize]);
            }
        }
        2 => s = format!("{}{}{:e}", ["", "+", "-", "0", "00"][g.below(5) as usize], g.below(1000000), g.log(-126, 127)),
        3 => s = format!("{}.{}e{}", g.below(100), g.below(1 << 40), g.range(-60, 50)),
        _ => s = format!("{}", g.any()),
    }
    if g.chance(3) {
        // one change
        let mut c: Vec<char> = s.chars().collect();
        let i = g.below(c.len() as u64 + 1) as usize;
        let p = PIECES[g.below(PIECES.len() as u64) as usize];
        match g.below(3) {
            0 if i < c.len() => drop(c.remove(i)),
            1 if i < c.len() => c.swap(i, 0),
            _ => drop(c.splice(i..i, p.chars())),
        }
        s = c.into_iter().collect();
    }
    if g.chance(8) {
        s = if g.chance(2) { s.to_uppercase() } else { s.to_lowercase() };
    }
    v.extend(s.chars().map(|c| c as u32));
}

fn text(a: &[u32], o: &mut Obs) -> Verdict {
    let x = f(a[0]);
    o.class(if x.is_nan() { 0 } else if x.is_infinite() { 1 } else { 2 });
    let v = F32(x);
    let s = format!("{x}");
    ensure!(format!("{v}") == s, "Display: {v} / {s}");
    ensure!(v.to_string() == s, "to_string");
    let e = format!("{x:e}");
    ensure!(format!("{v:e}") == e, "LowerExp: {v:e} / {e}");
    let u = format!("{x:E}");
    ensure!(format!("{v:E}") == u, "UpperExp: {v:E} / {u}");
    ensure!(format!("{v:?}") == format!("F32({x:?})"), "Debug: {v:?}");
    macro_rules! options {
        ($($t:literal),*) => {$(
            let (got, want) = (format!($t, v), format!($t, x));
            ensure!(got == want, "format {:?}: {got:?}, f32 {want:?}", $t);
        )*};
    }
    options!("{:.0}", "{:.3}", "{:9.2}", "{:<12}|", "{:^+12}|", "{:08.1}", "{:+}", "{:*>15}", "{:.2e}", "{:+.3E}", "{:12e}|", "{:<+14.1E}|", "{:014.4e}", "{:#}", "{:#.3}", "{:#012.1e}", "{:-}", "{:>3}", "{:é^9.1}");
    let (w, p) = ((a[0] % 20) as usize, (a[0] >> 8 & 7) as usize);
    ensure!(format!("{v:w$.p$}") == format!("{x:w$.p$}"), "Display with width {w} and precision {p}: {v:w$.p$}");
    ensure!(format!("{v:.p$?}") == format!("F32({x:.p$?})"), "Debug with precision {p}: {v:.p$?}");
    // wide and precise
    if a[0] >> 11 & 7 == 0 {
        let (w, p) = ((a[0] >> 14 & 127) as usize, (a[0] >> 21 & 255) as usize);
        macro_rules! long {
            ($($t:literal),*) => {$(
                let (got, want) = (format!($t, v, w, p), format!($t, x, w, p));
                ensure!(got == want, "format {:?} at {w}, {p}: {got:?}, f32 {want:?}", $t);
            )*};
        }
        long!("{0:1$.2$}", "{0:>+1$.2$e}", "{0:^01$.2$E}");
    }
    // to a sink of limited size: the same part arrives, and the same error comes back
    let room = (a[0] >> 3 & 15) as usize;
    macro_rules! sinks {
        ($($t:literal),*) => {$(
            let (mut have, mut want) = (Sink(room, String::new()), Sink(room, String::new()));
            let (h, w) = (write!(have, $t, v), write!(want, $t, x));
            ensure!(h == w && (have.1 == want.1 || h.is_err()), "format {:?} to a sink of {room} bytes: {h:?} {:?}, f32 {w:?} {:?}", $t, have.1, want.1);
        )*};
    }
    sinks!("{}", "{:e}", "{:E}", "{:9.2}");
    let mut strings = vec![s, e, u];
    strings.push(format!("{}x", strings[0]));
    strings.push(format!("+{}", strings[0]));
    strings.push(String::new());
    strings.push(format!(" {}", strings[0]));
    for s in &strings {
        parses(s, [2, 8, 10, 16, 36])?;
    }
    Ok(())
}

fn sums(a: &[u32], o: &mut Obs) -> Verdict {
    let x: Vec<f32> = a.iter().map(|&b| f(b)).collect();
    o.class(match x.len() {
        0 => 0,
        1 => 1,
        _ => 2,
    });
    let n = x.len() as f64;
    let s = x.iter().map(|&v| F32(v)).sum::<F32>().0;
    let p = x.iter().map(|&v| F32(v)).product::<F32>().0;
    let (std_s, std_p) = (x.iter().sum::<f32>(), x.iter().product::<f32>());
    if std_s.is_nan() || s.is_nan() {
        ensure!(same(s, std_s), "sum = {s:?}, f32 {std_s:?}");
    } else if !same(s, std_s) {
        // an order of summation other than std's is fine
        let exact: f64 = x.iter().map(|&v| v as f64).sum();
        let scale: f64 = x.iter().map(|&v| (v as f64).abs()).sum();
        ensure!((s as f64 - exact).abs() <= scale * EPS * (n + 1.0) || scale > 1e38, "sum = {s:?}, f32 {std_s:?}");
    }
    // in every order of multiplication NaN, or zero times infinity, gives NaN
    let (zero, inf) = (x.contains(&0.0), x.iter().any(|v| v.is_infinite()));
    let (up, down) = x.iter().fold((0f64, 0f64), |(u, d), v| {
        let l = (v.abs() as f64).log2();
        if l > 0.0 { (u + l, d) } else { (u, d + l) }
    });
    if x.iter().any(|v| v.is_nan()) || (zero && inf) {
        ensure!(p.is_nan(), "product = {p:?}, f32 {std_p:?}");
    } else if zero && up < 127.0 {
        ensure!(p == 0.0, "product = {p:?}, with a zero");
    } else if inf && down > -125.0 {
        ensure!(same(p, std_p), "product = {p:?}, f32 {std_p:?}");
    } else if up < 127.0 && down > -125.0 {
        let e = rel(p, std_p as f64);
        ensure!(e <= 2.0 * EPS * (n + 1.0), "product = {p:?}, f32 {std_p:?}");
    } else if !same(p, std_p) {
        let e = rel(p, std_p as f64);
        ensure!(e <= 2.0 * EPS * (n + 1.0) || !std_p.is_normal() || !p.is_normal(), "product = {p:?}, f32 {std_p:?}");
    }
    Ok(())
}

fn constants(_: &[u32], _: &mut Obs) -> Verdict {
    ensure!(F32::ZERO.0.to_bits() == 0 && F32::ONE.0 == 1.0 && F32::EPSILON.0 == f32::EPSILON, "ZERO, ONE, EPSILON");
    ensure!(F32::MIN.0 == f32::MIN && F32::MAX.0 == f32::MAX && F32::MIN_POSITIVE.0 == f32::MIN_POSITIVE, "MIN, MAX, MIN_POSITIVE");
    ensure!(F32::NAN.0.is_nan() && F32::INFINITY.0 == f32::INFINITY && F32::NEG_INFINITY.0 == f32::NEG_INFINITY, "NAN, INFINITY, NEG_INFINITY");
    ensure!(F32::RADIX == f32::RADIX && F32::MANTISSA_DIGITS == f32::MANTISSA_DIGITS && F32::DIGITS == f32::DIGITS, "RADIX, MANTISSA_DIGITS, DIGITS");
    ensure!(F32::MIN_EXP == f32::MIN_EXP && F32::MAX_EXP == f32::MAX_EXP && F32::MIN_10_EXP == f32::MIN_10_EXP && F32::MAX_10_EXP == f32::MAX_10_EXP, "exponents");
    ensure!(F32::default().0.to_bits() == 0, "default");
    ensure!(<F32 as Zero>::zero().0.to_bits() == 0 && <F32 as One>::one().0 == 1.0, "zero(), one()");
    Ok(())
}

fn main() {
    let mut r = Run::new(
        "C17",
        "operators in all mixes of F32 and f32, comparisons, conversions, formatting, parsing, sums and products are compared bit for bit with f32's own on random hostile values, special pairs, every i16/u16 and generated strings",
    );
    r.enumerate(&Mon::new("constants"), 1, |_, v| v.push(0), constants);
    let n = r.amount(80_000_000, 2_000_000_000);
    r.random(
        &Mon::new("operators").classes(CLASSES),
        n,
        |g: &mut Rng, v: &mut Vec<u32>| {
            let x = g.any();
            let y = if g.chance(3) { g.related(x) } else { g.any() };
            v.push(x.to_bits());
            v.push(y.to_bits());
        },
        pairs,
    );
    let s = mmverif::gen::SPECIALS;
    let c = s.len() as u64 * 14;
    r.enumerate(
        &Mon::new("operators, special pairs").classes(CLASSES),
        c * c,
        move |i, v| {
            for j in [i / c, i % c] {
                let x = s[(j / 14) as usize].to_bits();
                let x = (x as i64 + (j % 7) as i64 - 3).clamp(0, 0x7f80_0001) as u32;
                v.push(x | ((j % 14 / 7) as u32) << 31);
            }
        },
        pairs,
    );
    r.all(&Mon::new("conversions").classes(&["NaN", "infinite", "finite"]), unary);
    let n = r.amount(60_000_000, 2_000_000_000);
    r.random(
        &Mon::new("mul_add").classes(&["NaN", "overflow", "judged"]).metrics(&["absolute error"]),
        n,
        |g: &mut Rng, v: &mut Vec<u32>| {
            let (x, y) = (g.any(), g.any());
            let z = if g.chance(3) { -(x * y) } else { g.any() };
            v.extend([x.to_bits(), y.to_bits(), z.to_bits()]);
        },
        triple,
    );
    let n = r.amount(2_000_000, 100_000_000);
    r.random(&Mon::new("text").classes(&["NaN", "infinite", "finite"]), n, |g: &mut Rng, v: &mut Vec<u32>| v.push(g.any().to_bits()), text);
    let n = r.amount(4_000_000, 200_000_000);
    r.random(&Mon::new("parsing strange text").classes(&["rejected", "accepted"]), n, strange_text, parsing);
    let n = r.amount(4_000_000, 200_000_000);
    r.random(
        &Mon::new("sum and product").classes(&["empty", "single", "several"]),
        n,
        |g: &mut Rng, v: &mut Vec<u32>| {
            let n = if g.chance(20) { g.below(300) } else { g.below(9) };
            let style = g.below(3);
            for _ in 0..n {
                let x = match style {
                    0 => g.any(),
                    1 => g.range(-9, 9) as f32,
                    _ => g.log(-2, 2),
                };
                v.push(x.to_bits());
            }
        },
        sums,
    );
    r.finish()
}
