#!/bin/bash
# seedrun.sh [ID...] - run the check of each planted bug's property against /repo with the bug applied.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  t0=$(date +%s)
  out=$(/opt/venv/bin/python -B sim/run.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '  run ' | head -1 | cut -c1-220)"
  [ $rc -gt 1 ] && echo "$out" | tail -5
done
git -C /repo status --short
