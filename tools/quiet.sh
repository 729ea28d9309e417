#!/bin/bash
# quiet.sh [GROUP...] - run every check against a scratch copy of /repo with behaviour-preserving rewrites applied.
T=/tmp/quiet-work
rm -rf /tmp/quiet-work; mkdir -p $T; cp -a /repo $T/repo; cp -a /verif $T/verif
python3 /verif/tools/refactors.py $T/repo "$@" || exit 1
(cd $T/repo && PYTHONPATH=$T/repo/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -1)
cd $T/verif
for p in ${CHECKS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12}; do
  out=$(VERIF_REPO=$T/repo /opt/venv/bin/python -B sim/run.py $p 2>&1); echo "$p rc=$? $(echo "$out" | tail -1 | cut -c1-300)"
  echo "$out" | grep '  run ' | cut -c1-600
done
rm -rf /tmp/quiet-work
