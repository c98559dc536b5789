#!/bin/bash
# usage: try_seeds.sh [ID...]: runs, for each planted bug, the check of its property (or $CHECKS) with the bug applied to /repo
cd /verif
for id in ${*:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for c in ${CHECKS:-$prop}; do
    s=$(date +%s)
    out=$(timeout 900 bash check.sh $c --tier ${TIER:-quick} 2>&1); rc=$?
    e=$(date +%s)
    v=$(grep -c "^VIOLATION property=$c" <<<"$out")
    echo "$id $c rc=$rc violations=$v $((e-s))s $(grep '^VIOLATION' <<<"$out" | head -1 | cut -c1-200)"
    [ $rc = 0 ] || [ $rc = 1 ] || echo "$out" | tail -5
  done
  git -C /repo checkout -q -- .
done
