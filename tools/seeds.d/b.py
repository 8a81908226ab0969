def S(id, property, needs, breaks, edits, demo, **kw):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

WASM = """#!/bin/bash
# Run in the repository: calls it on wasm32, a 32-bit target, with node.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/wasm.rs" "$d/src/lib.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
micromath = { path = "$PWD", features = ["vector", "quaternion", "statistics"] }
[profile.release]
panic = "abort"
[workspace]
T
cd "$d"
v=$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor
CARGO_TARGET_DIR="$d/target" cargo build -q --offline --release -Zbuild-std=core --target wasm32v1-none --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\\"$v\\"" || exit 3
node -e 'const m = new WebAssembly.Instance(new WebAssembly.Module(require("fs").readFileSync(process.argv[1]))).exports; process.exit(m.good() ? 0 : 1)' "$d/target/wasm32v1-none/release/demo.wasm"
"""
MIRI = """#!/bin/bash
# Run in the repository: interprets demo.rs for a big-endian target with Miri.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
micromath = { path = "$PWD", features = ["vector", "quaternion", "statistics"] }
[workspace]
T
cd "$d"
XDG_CACHE_HOME="$d/cache" CARGO_TARGET_DIR="$d/target" cargo miri run -q --offline --target s390x-unknown-linux-gnu
"""

SEEDS = [
S("is-even-isize", "C29", "a 32-bit target, a negative base and an even exponent of 2^31 or more",
  "the parity of the exponent is taken in an isize, which saturates on 32-bit targets to an odd number",
  [("src/float.rs", "if self.extract_exponent_value() >= 31 {", "if self.extract_exponent_value() >= 63 {"), ("src/float.rs", "(self.0 as i32) % 2 == 0", "(self.0 as isize) % 2 == 0")],
  "", script=WASM, files={"wasm.rs": """#![no_std]
use micromath::F32;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! { loop {} }
#[no_mangle]
pub extern "C" fn good() -> bool { core::hint::black_box(F32(-1.0)).powf(F32(4294967296.0)).0 > 0.0 }
"""}),
S("abs-bytes", "C29", "a big-endian target",
  "the sign bit is cleared in the last byte in memory, which is the low one on big-endian targets",
  [("src/float/abs.rs", "use super::{F32, SIGN_MASK};", "use super::F32;"), ("src/float/abs.rs", "Self::from_bits(self.to_bits() & !SIGN_MASK)", "let mut bytes = self.0.to_ne_bytes();\n bytes[3] &= 0x7f;\n\n Self(f32::from_ne_bytes(bytes))")],
  "fn main() { assert_eq!(F32(-1.5).abs().0, 1.5); }\n", script=MIRI),
S("mean-atomic", "C29", "a target without atomic read-modify-write, such as a Cortex-M0",
  "a counter of the samples seen (for diagnostics) needs fetch_add, which thumbv6m does not have",
  [("src/statistics/mean.rs", "/// Arithmetic mean\n", "/// Values seen so far\nstatic SEEN: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);\n\n/// Arithmetic mean\n"),
   ("src/statistics/mean.rs", "            sum += item;\n", "            SEEN.fetch_add(1, core::sync::atomic::Ordering::Relaxed);\n            sum = sum + item;\n")],
  "", script="""#!/bin/bash
# Run in the repository: builds it for a Cortex-M0.
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d" cargo build -q --offline --lib -Zbuild-std=core --target thumbv6m-none-eabi --features statistics
""", build_demo=True),
]
