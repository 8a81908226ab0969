#!/bin/bash
# C37 counts operations on floats: the library is compiled for a processor without floating-point unit.
if ! bash "$VERIF_ROOT/soft/build.sh" > "$VERIF_ROOT/target/C37.soft.log" 2>&1; then
    tail -40 "$VERIF_ROOT/target/C37.soft.log"
    echo "ERROR: the library does not build for a processor without floating-point unit"
    exit 2
fi
if ! cargo build --release --offline --quiet --bin c37 2> "$VERIF_ROOT/target/C37.build.log"; then
    tail -40 "$VERIF_ROOT/target/C37.build.log"
    echo "ERROR: C37 does not build"
    exit 2
fi
exec "$VERIF_ROOT/target/release/c37" "$@"
