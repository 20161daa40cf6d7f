#!/bin/bash
# Builds the extractor, the dependency libraries for Verus, and the oracle.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
T=$V/target
mkdir -p "$T"
exec 9>"$T/.lock"; flock 9
export CARGO_NET_OFFLINE=true
what=${1:-all}
rc=0
if [ $what = all ] || [ $what = vpx ]; then
  (cd "$V/extract" && CARGO_TARGET_DIR=$T/vpx cargo build --offline --release -q) >"$T/vpx.log" 2>&1 || { cat "$T/vpx.log" >&2; rc=1; }
  (cd "$V/deps" && RUSTUP_TOOLCHAIN=$(verus --version | sed -n 's/.*Toolchain: \([^ ]*\).*/\1/p') CARGO_TARGET_DIR=$T/deps cargo build --offline -q) >"$T/deps.log" 2>&1 || { cat "$T/deps.log" >&2; rc=1; }
fi
if [ $what = all ] || [ $what = oracle ]; then
  (cd "$V/oracle" && CARGO_TARGET_DIR=$T/oracle cargo build --offline --release -q) >"$T/oracle.log" 2>&1 || { tail -40 "$T/oracle.log" >&2; rc=1; }
fi
exit $rc
