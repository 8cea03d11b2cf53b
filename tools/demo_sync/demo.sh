#!/bin/bash
# Builds a copy of the crate in the current directory with a probe inside it and runs demo.py.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp -r "$R/tsfile-writer" "$T/tsfile-writer"
find "$T/tsfile-writer/src" -name '*.rs' -exec sed -i 's/pub(crate)/pub/g' {} +
cat "$H/probe.rs" >> "$T/tsfile-writer/src/sync/sync_sender.rs"
cp "$H/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null || true
cat > "$T/Cargo.toml" <<X
[package]
name = "drv"
version = "0.1.0"
edition = "2021"
[dependencies]
tsfile-writer = { path = "tsfile-writer", features = ["sync_sender"] }
[workspace]
X
(cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/log") || { head -60 "$T/log"; exit 3; }
cd "$T"
PYTHONDONTWRITEBYTECODE=1 python3 "$H/demo.py" "$T/target/debug/drv" "$T"
