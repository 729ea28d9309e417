#!/bin/bash
# sr.sh TAG ID... : run checks on planted bugs in a scratch copy
T=/tmp/sr-$1; shift
rm -rf $T; mkdir -p $T; cp -a /repo $T/repo; cp -a /verif $T/verif; git -C $T/repo checkout -q -- .
cd $T/verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $T/repo apply $T/verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  t0=$(date +%s)
  out=$(VERIF_REPO=$T/repo /opt/venv/bin/python -B sim/run.py $p 2>&1); rc=$?
  git -C $T/repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '  run ' | head -1 | cut -c1-220)"
  [ $rc -gt 1 ] && echo "$out" | tail -5
done
rm -rf $T
