#!/bin/bash
# determinism.sh [CHECK...] - the event digest of a check must not depend on repetition, number of workers or hash seed.
cd "$(dirname "$0")/.." || exit 2
export VERIF_SCALE=${VERIF_SCALE:-0.02}
d() { env "$@" /opt/venv/bin/python -B sim/run.py $p 2>&1 | sed -n 's/.*event digest //p'; }
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}; do
  echo "$p again: $(d A=1) $(d A=1)  3 workers: $(d VERIF_WORKERS=3)  1 worker: $(d VERIF_WORKERS=1)  hash seed 7: $(d VERIF_HS=7)"
done
