#!/bin/bash
# usage: check.sh ID [--replay FILE] [--only MONITOR]
# Builds the harness of one property against /repo's working tree and runs it.
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
mkdir -p "$VERIF_ROOT/target"
cd "$VERIF_ROOT/harness" || exit 2
if [ -f "$VERIF_ROOT/checks/$id.sh" ]; then
    exec bash "$VERIF_ROOT/checks/$id.sh" "$@"
fi
if ! cargo build --release --offline --quiet --bin "$bin" 2> "$VERIF_ROOT/target/$id.build.log"; then
    tail -40 "$VERIF_ROOT/target/$id.build.log"
    echo "ERROR: $id does not build"
    exit 2
fi
exec "$VERIF_ROOT/target/release/$bin" "$@"
