#!/bin/bash
# Builds the harness of every check once, so that a missing tool shows at once. The checks build
# what they need themselves.
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$VERIF_ROOT/evidence" "$VERIF_ROOT/replay"
cd "$VERIF_ROOT/harness" && cargo build --release --offline --quiet --bins
