#!/bin/bash
# build.sh OUTDIR LIB_RS: builds the extension's source against the stand-ins, offline
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$1"
rustc --edition 2021 -A warnings --crate-name esat_attrs --crate-type proc-macro -O --out-dir "$1" "$here/attrs.rs"
ESAT_RUST_SRC="$2" rustc --edition 2021 -A warnings --crate-name esat_native --crate-type cdylib -C opt-level=2 -C overflow-checks=on -C debug-assertions=on \
  --extern esat_attrs="$1/libesat_attrs.so" --out-dir "$1" "$here/shim.rs"
