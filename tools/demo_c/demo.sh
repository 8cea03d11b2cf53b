#!/bin/bash
# Builds the C library from a copy of the current directory and runs demo.py, which compiles and runs C programs against it.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for f in Cargo.toml Cargo.lock tsfile-writer tsfile-writer-c examples; do [ -e "$R/$f" ] && cp -r "$R/$f" "$T/$f"; done
(cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q -p tsfile-writer-c 2>"$T/log") || { head -60 "$T/log"; exit 3; }
cp "$H/tsw.h" "$T/tsw.h"
cd "$T"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$H" python3 "$H/demo.py" "$T"
