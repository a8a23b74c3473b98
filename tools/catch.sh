#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run the check of its property (quick tier), undo.
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  for q in ${PROPS:-$p}; do
    VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 /verif/check.py $q >/tmp/catch.out 2>&1; r=$?
    echo "$i [$q] exit $r $(grep -m1 VIOLATION /tmp/catch.out) $(grep 'build ' /tmp/catch.out | tail -1)"
  done
  git -C /repo checkout -q -- .
done
