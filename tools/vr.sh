#!/bin/bash
bash /verif/tools/vx.sh "$@" 2>&1 | grep -vE "^warning|^\[rust_verify" > /tmp/vr.log; grep -E "^ *error|^verification results" -A${A:-14} /tmp/vr.log | head -${H:-80}; grep -c "^error" /tmp/vr.log
grep -o '"status": *"degraded"' /verif/target/vx/extract.json | wc -l | sed 's/^/degraded /'
