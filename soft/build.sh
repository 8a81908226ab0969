#!/bin/bash
# Builds target/soft/libsoft.so from /repo's working tree.
cd "$VERIF_ROOT/soft" || exit 2
T="$VERIF_ROOT/target/soft"
mkdir -p "$T"
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$T" RUSTFLAGS="-C relocation-model=pic -C code-model=small"
cargo build --release --offline --quiet -Zbuild-std=core --target x86_64-unknown-none || exit 1
python3 count.py "$T" &&
cc -shared -nostdlib -Wl,-Bsymbolic -Wl,--no-undefined -o "$T/libsoft.so.$$" -Wl,-u,soft_call -Wl,-u,soft_statistic "$T/count.S" @"$T/wrap.args" "$T/x86_64-unknown-none/release/libsoft.a" &&
mv "$T/libsoft.so.$$" "$T/libsoft.so"
