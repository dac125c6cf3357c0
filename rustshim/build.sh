#!/bin/bash
# build.sh <lib.rs> <directory>: compiles the extension against the stand-ins; leaves libesat_rust.so in the directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
src=$1; out=$2
mkdir -p "$out"
one() { rustc --edition 2021 --cap-lints allow -L "$out" --out-dir "$out" "$@"; }
one --crate-type proc-macro --crate-name pyo3_macros "$here/pyo3_macros.rs" &
for c in ndarray console candle_core nalgebra; do one -O --crate-type rlib --crate-name $c "$here/$c.rs" & done
wait
one -O --crate-type rlib --crate-name pyo3 "$here/pyo3.rs" &
one -O --crate-type rlib --crate-name indicatif "$here/indicatif.rs" &
wait
one -O --crate-type rlib --crate-name numpy "$here/numpy.rs"
ext=""
for c in pyo3 ndarray numpy console indicatif candle_core nalgebra; do ext="$ext --extern $c=$out/lib$c.rlib"; done
rustc --edition 2021 --cap-lints allow -O --crate-type cdylib --crate-name esat_rust -L "$out" $ext -o "$out/libesat_rust.so" "$src"
