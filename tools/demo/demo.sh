#!/bin/bash
# Builds the driver against the crate in the current directory and runs demo.py.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp -r "$R/tsfile-writer" "$T/tsfile-writer"
# crate-private constructors and settings are made reachable in the copy
find "$T/tsfile-writer/src" -name '*.rs' -exec sed -i 's/pub(crate)/pub/g' {} +
# a demonstration about chunk groups uses a smaller limit instead of 128 MiB of points
if grep -q SMALLGROUPS "$H/demo.py"; then
  find "$T/tsfile-writer/src" -name '*.rs' -exec sed -i 's/: u32 = 128 \* 1024 \* 1024;/: u32 = 256 * 1024;/' {} +
fi
cp "$H/drv.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null || true
cat > "$T/Cargo.toml" <<X
[package]
name = "drv"
version = "0.1.0"
edition = "2021"
[dependencies]
tsfile-writer = { path = "tsfile-writer" }
[workspace]
[profile.dev]
opt-level = 1
overflow-checks = true
X
(cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/log") || { head -60 "$T/log"; exit 3; }
cd "$T"
PYTHONDONTWRITEBYTECODE=1 python3 "$H/demo.py" "$T/target/debug/drv" "$T"
