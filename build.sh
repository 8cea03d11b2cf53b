#!/bin/bash
# Builds the MIR fact extractor and checks the current /repo tree into facts.
# usage: build.sh driver | facts OUTDIR
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=${SA_BUILD:-$V/build}
REPO=${REPO:-/repo}
mkdir -p "$B"
export CARGO_NET_OFFLINE=true
SYS=$(rustc +nightly --print sysroot)
driver() {
  if [ ! -x "$B/mirdump" ] || [ "$V/driver/mirdump.rs" -nt "$B/mirdump" ]; then
    rustc +nightly -O --edition 2021 "$V/driver/mirdump.rs" -o "$B/mirdump.tmp.$$" 2> "$B/driver.log" || { cat "$B/driver.log"; exit 3; }
    mv "$B/mirdump.tmp.$$" "$B/mirdump"
  fi
}
facts() {
  local out=$1
  mkdir -p "$out"
  exec 9> "$B/lock"; flock 9
  rm -f "$out"/*.json
  # force the workspace members through the extractor
  find "$B/target/debug/.fingerprint" "$B/target/debug/build" -maxdepth 1 -name 'tsfile*' -exec rm -rf {} + 2>/dev/null || true
  (cd "$REPO" && MIRDUMP_DIR=$out LD_LIBRARY_PATH=$SYS/lib RUSTC_WORKSPACE_WRAPPER=$B/mirdump \
    CARGO_TARGET_DIR=$B/target cargo +nightly check --offline --workspace --lib > "$B/check.log" 2>&1) || { tail -40 "$B/check.log"; return 2; }
  [ -s "$out/tsfile_writer.json" ] && [ -s "$out/tsfile_writer_c.json" ]
}
case "$1" in
  driver) driver ;;
  facts) driver; facts "$2" ;;
  setup) driver; t=$(mktemp -d); facts "$t"; rm -rf "$t" ;;
esac
