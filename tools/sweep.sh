#!/bin/bash
# sweep.sh [seed ids...]: runs the property's quick check against each planted bug
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py $p quick >/tmp/sweep.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/sweep.out)"
  [ $rc = 2 ] && tail -5 /tmp/sweep.out
done
