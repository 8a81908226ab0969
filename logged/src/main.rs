//! C31: what is logged through defmt are the values. The monitor takes the place of the logger: it
//! records the bytes that the Format impls write and decodes them as a defmt host does, with the
//! format strings that the linker left in the symbol table of this very program (linked at fixed
//! addresses, of which the bytes hold 16 bits).
use defmt::Format;
use micromath::vector::{Component, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use mmverif::{ensure, spec::f, Mon, Obs, Run, Verdict};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write;
use std::sync::OnceLock;

thread_local! {
    static BYTES: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
#[no_mangle]
fn _defmt_acquire() {}
#[no_mangle]
fn _defmt_release() {}
#[no_mangle]
fn _defmt_write(b: &[u8]) {
    BYTES.with(|v| v.borrow_mut().extend_from_slice(b))
}
#[no_mangle]
fn _defmt_timestamp(_: defmt::Formatter<'_>) {}
#[no_mangle]
fn _defmt_panic() -> ! {
    panic!("defmt panic")
}

/// The format strings, by the low 16 bits of their address.
fn strings() -> &'static HashMap<u16, String> {
    static S: OnceLock<HashMap<u16, String>> = OnceLock::new();
    S.get_or_init(|| {
        let e = std::fs::read("/proc/self/exe").unwrap();
        let u64_at = |p: usize| u64::from_le_bytes(e[p..p + 8].try_into().unwrap()) as usize;
        let u32_at = |p: usize| u32::from_le_bytes(e[p..p + 4].try_into().unwrap()) as usize;
        let u16_at = |p: usize| u16::from_le_bytes(e[p..p + 2].try_into().unwrap()) as usize;
        assert_eq!(u16_at(16), 2, "linked at a fixed address");
        let (sections, size, n) = (u64_at(40), u16_at(58), u16_at(60));
        let mut out = HashMap::new();
        for k in 0..n {
            let s = sections + k * size;
            if u32_at(s + 4) != 2 {
                continue; // not a symbol table
            }
            let names = u64_at(sections + u32_at(s + 40) * size + 24);
            for y in (u64_at(s + 24)..u64_at(s + 24) + u64_at(s + 32)).step_by(24) {
                let name = &e[names + u32_at(y)..];
                let name = &name[..name.iter().position(|&b| b == 0).unwrap()];
                let Ok(name) = std::str::from_utf8(name) else { continue };
                if !name.starts_with("{\"package\"") {
                    continue;
                }
                let data = name.split("\"data\":\"").nth(1).unwrap().split("\",\"disambiguator\"").next().unwrap();
                let old = out.insert(u64_at(y + 8) as u16, data.to_string());
                assert!(old.is_none(), "two format strings in one place");
            }
        }
        assert!(out.len() > 5, "no format strings in the symbol table");
        out
    })
}

/// What a host shows for the bytes from `at`: text, and values as type:bits. `None`: not decodable.
fn message(b: &[u8], at: &mut usize, out: &mut String) -> Option<()> {
    let mut take = |n: usize| {
        let v = b.get(*at..*at + n)?;
        *at += n;
        Some(v.iter().rev().fold(0u64, |a, &x| a << 8 | x as u64))
    };
    let s = strings().get(&(take(2)? as u16))?.clone();
    let mut args: Vec<String> = vec![];
    // parse first: arguments may be shown in another order than they are sent in
    enum Piece {
        Text(String),
        Arg(usize),
    }
    let (mut pieces, mut kinds, mut next) = (vec![], vec![], 0);
    let mut rest = s.as_str();
    while !rest.is_empty() {
        if let Some(t) = rest.strip_prefix("{{").or(rest.strip_prefix("}}")) {
            pieces.push(Piece::Text(rest[..1].into()));
            rest = t;
        } else if let Some(t) = rest.strip_prefix('{') {
            let (spec, t) = t.split_once('}')?;
            rest = t;
            let spec = spec.split(':').next()?;
            let (position, kind) = spec.split_once('=').unwrap_or((spec, "?"));
            let k = if position.is_empty() {
                next += 1;
                next - 1
            } else {
                position.parse().ok()?
            };
            while kinds.len() <= k {
                kinds.push("?".to_string());
            }
            kinds[k] = kind.to_string();
            pieces.push(Piece::Arg(k));
        } else {
            let n = rest.find(['{', '}']).unwrap_or(rest.len());
            pieces.push(Piece::Text(rest[..n].into()));
            rest = &rest[n..];
        }
    }
    for kind in kinds {
        let mut take = |n: usize| {
            let v = b.get(*at..*at + n)?;
            *at += n;
            Some(v.iter().rev().fold(0u64, |a, &x| a << 8 | x as u64))
        };
        let mut t = String::new();
        match kind.as_str() {
            "?" => message(b, at, &mut t)?,
            // messages one after the other, up to a zero
            "__internal_FormatSequence" => loop {
                if b.get(*at..*at + 2)? == [0, 0] {
                    *at += 2;
                    break;
                }
                message(b, at, &mut t)?;
            },
            "u8" | "i8" | "bool" => write!(t, "{kind}:{:x}", take(1)?).ok()?,
            "u16" | "i16" => write!(t, "{kind}:{:x}", take(2)?).ok()?,
            "u32" | "i32" | "f32" => write!(t, "{kind}:{:x}", take(4)?).ok()?,
            "u64" | "i64" | "f64" => write!(t, "{kind}:{:x}", take(8)?).ok()?,
            "str" => {
                let n = take(4)? as usize;
                let v = b.get(*at..*at + n)?;
                *at += n;
                t = String::from_utf8(v.to_vec()).ok()?;
            }
            _ => {
                println!("ERROR: cannot decode {kind}");
                std::process::exit(2);
            }
        }
        args.push(t);
    }
    for p in pieces {
        match p {
            Piece::Text(t) => out.push_str(&t),
            Piece::Arg(k) => out.push_str(&args[k]),
        }
    }
    Some(())
}

fn logged(x: &impl Format) -> Result<String, String> {
    BYTES.with(|v| v.borrow_mut().clear());
    x.format(defmt::export::make_formatter());
    let b = BYTES.with(|v| v.take());
    let (mut at, mut out) = (0, String::new());
    // several messages may follow each other
    while at < b.len() {
        message(&b, &mut at, &mut out).ok_or_else(|| format!("cannot be decoded: {b:x?}"))?;
    }
    Ok(out)
}

fn judge(name: &str, x: &impl Format, want: String) -> Verdict {
    let got = logged(x)?;
    ensure!(got == want, "{name} is logged as {got}, not {want}");
    Ok(())
}

fn vectors<C: Component + Format>(c: [C; 3], shown: [String; 3]) -> Verdict
where
    Vector2d<C>: From<(C, C)>,
    Vector3d<C>: From<(C, C, C)>,
{
    let [x, y, z] = shown;
    judge("Vector2d", &Vector2d::from((c[0], c[1])), format!("({x}, {y})"))?;
    judge("Vector3d", &Vector3d::from((c[0], c[1], c[2])), format!("({x}, {y}, {z})"))
}

fn one(a: &[u32], o: &mut Obs) -> Verdict {
    let show = |w: u32| format!("f32:{w:x}");
    o.class(a.iter().map(|&w| f(w)).any(f32::is_nan) as usize);
    judge("F32", &F32(f(a[0])), show(a[0]))?;
    judge("Quaternion", &Quaternion::new(f(a[0]), f(a[1]), f(a[2]), f(a[3])), format!("({}, {}, {}, {})", show(a[0]), show(a[1]), show(a[2]), show(a[3])))?;
    vectors([0, 1, 2].map(|k| f(a[k])), [0, 1, 2].map(|k| show(a[k])))?;
    vectors([0, 1, 2].map(|k| F32(f(a[k]))), [0, 1, 2].map(|k| show(a[k])))?;
    macro_rules! ints {
        ($($t:ident $u:ident),*) => {$(
            vectors([0, 1, 2].map(|k| a[k] as $t), [0, 1, 2].map(|k| format!("{}:{:x}", stringify!($t), a[k] as $u)))?;
        )*};
    }
    ints!(i8 u8, u8 u8, i16 u16, u16 u16, i32 u32, u32 u32);
    Ok(())
}

fn main() {
    let mut run = Run::new("C31", "values of every type that implements Format: hostile floats and raw bits for the components");
    run.assume("the format is that of defmt 0.3, decoded by this monitor instead of a host");
    let m = Mon::new("messages").classes(&["numbers", "a NaN among them"]);
    run.random(&m, run.amount(1_000_000, 50_000_000), |r, v| {
        for _ in 0..4 {
            v.push(if r.chance(2) { r.u32() } else { r.any().to_bits() });
        }
    }, one);
    run.finish()
}
