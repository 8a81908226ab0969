def S(id, property, needs, breaks, edits, demo, **kw):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

DEFMT = """#!/bin/bash
# Run in the repository: looks at the bytes that are logged through defmt.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/logged.rs" "$d/src/main.rs"
cp "$PWD/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
micromath = { path = "$PWD", features = ["vector", "quaternion", "defmt"] }
defmt = { version = "0.3.8", default-features = false }
[workspace]
T
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo run -q --offline
"""
LOGGED = """use defmt::Format;
use micromath::{vector::*, Quaternion, F32};
static BYTES: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
#[no_mangle]
fn _defmt_acquire() {}
#[no_mangle]
fn _defmt_release() {}
#[no_mangle]
fn _defmt_write(b: &[u8]) { BYTES.lock().unwrap().extend_from_slice(b) }
#[no_mangle]
fn _defmt_timestamp(_: defmt::Formatter<'_>) {}
#[no_mangle]
fn _defmt_panic() -> ! { panic!() }
/// The values must be in the bytes, in this order.
fn check(x: impl Format, values: &[f32]) {
    x.format(defmt::export::make_formatter());
    let b = std::mem::take(&mut *BYTES.lock().unwrap());
    let mut at = 0;
    for v in values {
        let k = b[at..].windows(4).position(|w| w == v.to_le_bytes()).unwrap_or_else(|| panic!("{v} is not where it should be in {b:x?}"));
        at += k + 4;
    }
}
fn main() {
    check(F32(-1.2345678), &[-1.2345678]);
    check(Quaternion::new(1.1, -2.2, 3.3, -4.4), &[1.1, -2.2, 3.3, -4.4]);
    check(F32x3::from((1.1, 2.2, 3.3)), &[1.1, 2.2, 3.3]);
    check(F32x2::from((1.1, 2.2)), &[1.1, 2.2]);
}
"""

SEEDS = [
S("defmt-xyzw", "C31", "logging through defmt on a target",
  "quaternions are logged with the real part last",
  [("src/quaternion.rs", 'defmt::write!(fmt, "({}, {}, {}, {})", self.0, self.1, self.2, self.3)', 'defmt::write!(fmt, "({}, {}, {}, {})", self.x(), self.y(), self.z(), self.w())')],
  "", script=DEFMT, files={"logged.rs": LOGGED}),
S("defmt-positions", "C31", "logging of a 3-dimensional vector through defmt",
  "y and z are swapped in what is logged",
  [("src/vector/vector3d.rs", 'defmt::write!(fmt, "({}, {}, {})", self.x, self.y, self.z)', 'defmt::write!(fmt, "({0}, {1}, {2})", self.x, self.z, self.y)')],
  "", script=DEFMT, files={"logged.rs": LOGGED}),

S("trim-recompute", "C30", "a long sample, of which many values are read",
  "every step of the iterator computes the mean of the whole sample anew: quadratic",
  [("src/statistics/trim.rs", "    /// Arithmetic mean of the input values as a float\n    mean: f32,", "    /// All of the input values\n    whole: &'a [N],"),
   ("src/statistics/trim.rs", "        let len = input.len() as f32;\n", "        let whole = input;\n        let len = input.len() as f32;\n"),
   ("src/statistics/trim.rs", "            input,\n            mean,\n", "            input,\n            whole,\n"),
   ("src/statistics/trim.rs", "        while let Some(n) = self.input.next() {\n", "        let mean = self.whole.iter().cloned().map(f32::from).mean();\n\n        while let Some(n) = self.input.next() {\n"),
   ("src/statistics/trim.rs", "(f32::from(n) - self.mean).abs()", "(f32::from(n) - mean).abs()")],
  "fn main() { let v: Vec<f32> = (0..40_000).map(|i| (i % 100) as f32).collect(); let t = std::time::Instant::now(); let n = (&v[..]).trim_at(5.0).count(); assert_eq!(n, 40_000); let long = t.elapsed().as_secs_f64(); let w = &v[..400]; let t = std::time::Instant::now(); for _ in 0..100 { assert_eq!(std::hint::black_box(w).trim_at(5.0).count(), 400); } let short = t.elapsed().as_secs_f64(); assert!(long < 20.0 * short + 0.05, \"{long} {short}\"); }\n"),
S("powi-linear", "C30", "an exponent that is large in magnitude, with a base of about one in magnitude",
  "negative one and one are multiplied in a loop as long as the exponent: seconds per call",
  [("src/float/powi.rs", "        // For values less than 2.0, but greater", "        if self.abs() == Self::ONE {\n            let mut sign = Self::ONE;\n            for _ in 0..abs_n {\n                sign = core::hint::black_box(sign) * self;\n            }\n            return sign;\n        }\n\n        // For values less than 2.0, but greater")],
  "fn main() { let t = std::time::Instant::now(); for k in 0..10 { assert_eq!(F32(-1.0).powi(100_000_001 + k).0, if k % 2 == 0 { -1.0 } else { 1.0 }); } assert!(t.elapsed().as_secs_f64() < 0.5); }\n"),
S("mean-block", "C30", "a stack of less than 16 KiB, as on a microcontroller",
  "the values are summed in blocks kept on the stack (for accuracy)",
  [("src/statistics/mean.rs", "        let mut sum = 0.0;\n", "        let mut block = [0.0f32; 4096];\n        let mut used = 0;\n        let mut sum = 0.0;\n"),
   ("src/statistics/mean.rs", "            sum += item;\n", "            block[used] = item;\n            used += 1;\n            if used == block.len() {\n                sum += block.iter().sum::<f32>();\n                used = 0;\n            }\n"),
   ("src/statistics/mean.rs", "        sum / (num_items as f32)", "        sum += block[..used].iter().sum::<f32>();\n\n        sum / (num_items as f32)")],
  """fn main() {
    // how far below main the frames of mean reach, seen from the iterator that it reads
    #[inline(never)]
    fn here() -> usize {
        let x = 0u8;
        std::hint::black_box(&x) as *const u8 as usize
    }
    let low = std::cell::Cell::new(usize::MAX);
    let m = (0..10).map(|i| { low.set(low.get().min(here())); i as f32 }).mean();
    assert!((m - 4.5).abs() < 1e-6);
    let depth = here() - low.get();
    assert!(depth < 8192, "{depth} bytes of stack");
}
""", profile="opt-level = 0"),
S("collect-count", "C30", "an iterator that does not end, or that has effects when read",
  "the surplus of an iterator is counted to the end before it is refused: with an endless one the call does not return",
  [("src/vector/vector2d.rs", 'assert!(\n            iter.next().is_none(),\n            "too many items for 2-dimensional vector"\n        );', 'let surplus = iter.count();\n        assert!(\n            surplus == 0,\n            "{} items too many for 2-dimensional vector",\n            surplus\n        );')],
  "fn main() { let k = std::cell::Cell::new(0); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (0..100_000).map(|i| { k.set(k.get() + 1); i as f32 }).collect::<Vector2d<f32>>())); assert!(k.get() < 10, \"{}\", k.get()); }\n"),
]
