#!/bin/bash
# builds everything the checks share, for all platforms
set -e
cd "$(dirname "$0")/.."
bash tools/setup.sh
ps=()
for t in "" x86_64-unknown-freebsd x86_64-pc-windows-msvc x86_64-apple-darwin; do
  bash tools/dump.sh ".build/mir${t:+-$t}.json" $t &
  ps+=($!)
done
for p in "${ps[@]}"; do wait "$p"; done
