#!/bin/bash
# C31 is a program of its own, for it needs defmt; it is linked at fixed addresses (see its source).
export CARGO_TARGET_DIR="$VERIF_ROOT/target/logged" RUSTFLAGS="-Crelocation-model=static"
cd "$VERIF_ROOT/logged" || exit 2
if ! cargo build --release --offline --quiet --target x86_64-unknown-linux-gnu 2> "$VERIF_ROOT/target/C31.build.log"; then
    tail -40 "$VERIF_ROOT/target/C31.build.log"
    echo "ERROR: C31 does not build"
    exit 2
fi
exec "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/logged" "$@"
