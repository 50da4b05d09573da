#!/bin/bash
# runseed.sh ID...: applies each planted bug in /repo and runs the check of its property
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || exit 1
  t0=$SECONDS
  out=$(cd /verif && ./check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -m1 VIOLATION)"
done
