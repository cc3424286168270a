#!/bin/bash
# run.sh SET...: (through tools/seeding/iso.sh) the tests and every check on /repo after edits that change no behaviour.
for set in "$@"; do
  python3 /verif/tools/quiet/edits.py $set || { echo "$set does not apply"; git -C /repo checkout -- .; continue; }
  bash /opt/vp/build.sh >/tmp/quiet.build 2>&1 || { grep -A8 "^error" /tmp/quiet.build; git -C /repo checkout -- .; continue; }
  bash /opt/vp/test.sh /tmp/quiet.json >/dev/null 2>&1
  python3 -c "import json;d=json.load(open('/tmp/quiet.json'));print('$set tests', {k: len(v) for k, v in d.items() if isinstance(v, list)})"
  for i in ${CHECKS:-$(seq -f %02g 1 30)}; do
    out=$(cd /verif && VERIF_TIER=quick timeout 900 ./run.sh C$i 2>&1); rc=$?
    [ $rc = 0 ] && echo -n "C$i ok " || { echo; echo "$set C$i rc=$rc"; echo "$out" | tail -8 | cut -c1-300; }
  done; echo
  git -C /repo checkout -- .
done
