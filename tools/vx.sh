#!/bin/bash
# dev driver: extract and verify; args passed to verus
OUT=${OUT:-/verif/target/vx}
rm -rf "$OUT"; mkdir -p "$OUT"
/verif/target/vpx/release/vpx --src /repo/src --contracts /verif/contracts --out "$OUT" --feature threads --known /verif/contracts/baseline.json || exit 2
D=/verif/target/deps/debug/deps
EXT=""
for c in digest sha2 blake2 blake3 generic_array typenum openat itertools num_cpus futures futures_cpupool; do
  EXT="$EXT --extern $c=$(ls $D/lib$c-*.rlib | head -1)"
done
cd "$OUT" && verus --multiple-errors ${M:-5} --crate-type=lib lib.rs --edition 2021 -L dependency=$D $EXT "$@"
