#!/bin/bash
# build.sh OUTDIR [REPO] : the crate of REPO against the stand-ins, as OUTDIR/_core.so
S=$(cd "$(dirname "$0")" && pwd); B=$1; R=${2:-/repo}; mkdir -p "$B"; set -e
rustc --edition 2024 --crate-type proc-macro --crate-name pyo3_macros $S/pyo3_macros.rs --out-dir $B -O &
rustc --edition 2024 --crate-type rlib --crate-name spec_math $S/spec_math.rs --out-dir $B -O -A warnings &
wait %1
rustc --edition 2024 --crate-type rlib --crate-name pyo3 $S/pyo3.rs --out-dir $B --extern pyo3_macros=$B/libpyo3_macros.so -O -A warnings
rustc --edition 2024 --crate-type rlib --crate-name numpy $S/numpy.rs --out-dir $B -L $B --extern pyo3=$B/libpyo3.rlib -O -A warnings
wait
rustc --edition 2024 --crate-type cdylib --crate-name _core $R/rust/src/lib.rs -L $B --extern pyo3=$B/libpyo3.rlib --extern numpy=$B/libnumpy.rlib --extern spec_math=$B/libspec_math.rlib -C opt-level=2 -C codegen-units=8 -A warnings --cfg 'feature="extension-module"' -o $B/_core.so
