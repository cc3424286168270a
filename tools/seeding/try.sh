#!/bin/bash
# try.sh ID...: applies each planted bug to /repo in turn and runs the check of its property.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  t0=$(date +%s)
  out=$(cd /verif && VERIF_TIER=${TIER:-quick} timeout 900 ./run.sh ${CHECK:-$p} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id ${CHECK:-$p} rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep -v '^VIOL' | head -2 | cut -c1-150 | tr '\n' '|')"
done
