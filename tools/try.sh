#!/bin/bash
# development helper: apply each seeded change to /repo, run the check of its property, undo
for id in "$@"; do
 d=/verif/seeded/$id
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply $d/patch.diff || continue
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/run.py ${P:-$p} > /tmp/try.$id.log 2>&1; rc=$?
 git -C /repo checkout -q -- .
 echo "$id $p rc=$rc $(grep -c '^  FAILED' /tmp/try.$id.log) failed, $(grep -c '^  bounded' /tmp/try.$id.log) bounded, $(grep -o 'no-failing-input-found' /tmp/try.$id.log | head -1) $(head -1 /tmp/try.$id.log | grep -o '[0-9.]* s$')"
done
