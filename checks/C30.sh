#!/bin/bash
# C30 counts what the code executes: every basic block of it is made to call the counter in c30.rs.
# Little optimization, so that the blocks are those of the program text.
export CARGO_TARGET_DIR="$VERIF_ROOT/target/counted"
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-prune-blocks=0"
export CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_LTO=off
cd "$VERIF_ROOT/harness" || exit 2
if ! cargo build --release --offline --quiet --target x86_64-unknown-linux-gnu --bin c30 2> "$VERIF_ROOT/target/C30.build.log"; then
    tail -40 "$VERIF_ROOT/target/C30.build.log"
    echo "ERROR: C30 does not build"
    exit 2
fi
exec "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/c30" "$@"
