#!/bin/bash
# matrix.sh W N OUT: (through iso.sh) every N-th planted bug from the W-th on, with the check of its property; lines "id TAB check or -".
W=$1 N=$2 OUT=$3
k=0
for d in /verif/seeded/*/; do
  id=$(basename $d); k=$((k+1)); [ $((k % N)) = $W ] || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo -e "$id\tdoes not apply" >>$OUT; continue; }
  out=$(cd /verif && VERIF_TIER=quick timeout 900 ./run.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && echo "$out" | grep -q "VIOLATION property=$p"; then echo -e "$id\t$p" >>$OUT; else echo -e "$id\t- rc=$rc" >>$OUT; fi
done
