#!/bin/bash
# debug: verify the (hand-edited) tree in $1 without extracting
D=/verif/target/deps/debug/deps; EXT=""
for c in digest sha2 blake2 blake3 generic_array typenum openat itertools num_cpus futures futures_cpupool; do
  EXT="$EXT --extern $c=$(ls $D/lib$c-*.rlib | head -1)"
done
cd "$1"; shift; verus --multiple-errors ${M:-5} --crate-type=lib lib.rs --edition 2021 -L dependency=$D $EXT "$@" 2>&1 | grep -vE "^\[rust_verify" | grep -E "^ *error|verification results" -A${A:-14} | head -${H:-80}
