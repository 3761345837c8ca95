#!/bin/bash
# Applies each planted bug in turn to /repo, runs its property's check, and undoes it. Not a check.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  python3 check.py $p > /tmp/try_$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -h '^VIOLATION' /tmp/try_$d.log) $(grep -h 'obligation' /tmp/try_$d.log | tail -1)"
done
