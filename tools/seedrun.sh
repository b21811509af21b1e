#!/bin/bash
# Run a property's quick check with a seeded bug applied to /repo:
# seedrun.sh ID...   Restores /repo afterwards.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: no apply"; continue; }
  out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} python3 checks/$(echo $p | tr A-Z a-z).py 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | grep -m1 '^VIOLATION')"
done
