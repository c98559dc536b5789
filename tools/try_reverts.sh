#!/bin/bash
# Reverses each repair in /repo's working tree, runs the check named in known_findings.txt, undoes it.
# Usage: tools/try_reverts.sh [COMMIT...]   (never while a vcheck runs)
cd /repo
for l in $(grep '^fixed' /verif/known_findings.txt | sed 's/fixed: property=\(C[0-9]*\) \([0-9a-f]*\) .*/\1:\2/'); do
  p=${l%:*}; c=${l#*:}
  [ $# -gt 0 ] && ! [[ " $* " == *" $c "* ]] && continue
  git show "$c" > /tmp/revert.diff
  if ! git apply -R /tmp/revert.diff 2>/dev/null && ! git apply -R --3way /tmp/revert.diff 2>/dev/null; then
    if ls /verif/tools/reverts/$c.diff >/dev/null 2>&1; then git reset -q; git checkout -q -- .; git apply /verif/tools/reverts/$c.diff || { echo "$p $c own reversal does not apply"; continue; }
    else echo "$p $c CONFLICT"; git reset -q --hard; continue; fi
  fi
  git reset -q
  out=$(bash /verif/check.sh "$p" --tier quick 2>&1); rc=$?
  echo "$p $c rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations; families: $(echo "$out" | grep '^VIOLATION' | sed 's/.*replay\/C[0-9]*-//; s/-[0-9]*\.txt//' | sort -u | head -6 | tr '\n' ' ')"
  git checkout -q -- .
done
rm -f /tmp/revert.diff; git status --short
