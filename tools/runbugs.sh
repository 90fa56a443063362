#!/bin/bash
# runs, for each planted bug (or those named), the quick check of its property; prints caught / MISSED
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d no apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -m1 -E 'VIOLATION' )"
done
