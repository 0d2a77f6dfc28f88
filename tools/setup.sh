#!/bin/bash
# builds the MIR exporter, the dependencies of the crate under analysis and the library models
set -e
cd "$(dirname "$0")/.."
B=$PWD/.build
mkdir -p "$B"
SYS=$(rustc +nightly --print sysroot)
( flock 9
if [ ! -x "$B/driver/release/mirdump" ] || [ driver/src/main.rs -nt "$B/driver/release/mirdump" ]; then
  ( cd driver && CARGO_TARGET_DIR="$B/driver" cargo +nightly build --release --offline >"$B/driver.log" 2>&1 ) || { cat "$B/driver.log" >&2; exit 1; }
fi
if [ ! -s "$B/models.json" ] || [ models/src/lib.rs -nt "$B/models.json" ] || [ "$B/driver/release/mirdump" -nt "$B/models.json" ]; then
  rm -rf "$B/models"
  ( cd models && LD_LIBRARY_PATH=$SYS/lib RUSTC_WRAPPER=$B/driver/release/mirdump MIRDUMP_CRATE=models MIRDUMP_OUT=$B/models.json \
    CARGO_INCREMENTAL=0 cargo +nightly check --offline --target-dir "$B/models" >"$B/models.log" 2>&1 ) || { cat "$B/models.log" >&2; exit 1; }
  test -s "$B/models.json"
fi
) 9>"$B/setup.lock"
