#!/bin/bash
# usage: dump.sh OUT.json [TARGET]  -- dumps the MIR of the crate in /repo, for the host or another target
set -e
OUT=$(realpath -m "$1")
T=$2
cd "$(dirname "$0")/.."
B=$PWD/.build
mkdir -p "$B"
( flock 9
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib RUSTC_WRAPPER=$B/driver/release/mirdump MIRDUMP_OUT=$OUT CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
rm -f "$OUT"
# (for other targets the standard library is built from source)
D=$B/harness${T:+-$T}
# cargo must not consider the crate fresh: drop its unit (both cargo layouts)
rm -rf "$D/debug/build/async-io" "$D/$T/debug/build/async-io"
find "$D" -path '*/.fingerprint/async-io-*' -prune -exec rm -rf {} + 2>/dev/null || true
cd harness && cargo +nightly check --offline --locked ${T:+-Zbuild-std --target $T} --target-dir "$D" >"$D.log" 2>&1 || { cat "$D.log" >&2; exit 1; }
test -s "$OUT"
# the compiled crate, for the witness programs (another run may rebuild it meanwhile)
if [ -n "$MIRDUMP_RMETA" ]; then
  mkdir -p "$MIRDUMP_RMETA"
  find "$B/harness/debug" -name 'libasync_io-*.rmeta' -exec cp {} "$MIRDUMP_RMETA/" \;
  ls "$MIRDUMP_RMETA"/libasync_io-*.rmeta >/dev/null
fi
) 9>"$B/lock$T"
