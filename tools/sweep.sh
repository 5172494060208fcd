#!/bin/bash
# Runs every check at quick depth for the given seeds.
cd "$(dirname "$0")/.."
for s in "$@"; do
  for c in $(python3 -c "import json;print(*json.load(open('checks.json')))"); do
    out=$(python3 check.py $c --seed $s 2>/tmp/sweep.err); rc=$?
    echo "seed=$s $c rc=$rc $(echo "$out" | tail -1)"
    [ $rc = 0 ] || { echo "$out"; tail -30 /tmp/sweep.err; }
  done
done
