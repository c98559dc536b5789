#!/bin/bash
# usage: try_scratch.sh [ID...]: like try_seeds.sh, but in scratch copies of /repo and of the explorer (/tmp/seed_try), so that
# /repo is not touched. Env: CHECKS (default: the property of the bug), TIER, BASE (a git revision of /repo).
set -u
S=/tmp/seed_try
mkdir -p $S/verif/evidence
exec 8>$S/.lock; flock 8
for id in ${*:-$(ls /verif/seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  mkdir -p $S/repo; git -C /repo archive HEAD | tar -x -C $S/repo
  (cd $S/repo && patch -p1 -s --no-backup-if-mismatch < /verif/seeded/$id/patch.diff) || { echo "$id does not apply"; continue; }
  find $S/repo/src -name '*.rs' -exec touch {} +
  mkdir -p $S/mc; cp -a /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock $S/mc/; [ -d /verif/mc/.cargo ] && cp -a /verif/mc/.cargo $S/mc/; [ -f /verif/mc/build.rs ] && cp -a /verif/mc/build.rs $S/mc/
  cp /verif/known_findings.txt /verif/properties.jsonl $S/verif/ 2>/dev/null
  sed -i "s|path = \"/repo\"|path = \"$S/repo\"|" $S/mc/Cargo.toml
  if ! (cd $S/mc && cargo build --release --offline >$S/log 2>&1); then tail -30 $S/log; echo "$id build failed"; continue; fi
  for c in ${CHECKS:-$prop}; do
    s=$(date +%s)
    out=$(MC_VERIF=$S/verif timeout 900 $S/mc/target/release/mc $c --tier ${TIER:-quick} 2>&1); rc=$?
    e=$(date +%s)
    v=$(grep -c "^VIOLATION property=$c" <<<"$out")
    echo "$id $c rc=$rc violations=$v $((e-s))s $(grep '^VIOLATION' <<<"$out" | sed 's|.*replay/||; s|\.txt||' | cut -c1-60 | tr '\n' ' ')"
    [ $rc = 0 ] || [ $rc = 1 ] || echo "$out" | tail -5
  done
done
