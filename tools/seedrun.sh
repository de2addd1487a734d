#!/bin/bash
# seedrun.sh ID...: run the property's quick check against each planted change in /repo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: apply failed"; continue; }
  t0=$(date +%s)
  python3 check.py $p >/tmp/sr.out 2>/tmp/sr.err; rc=$?
  git -C /repo checkout -- .
  echo "$id: $p rc=$rc $(grep -c VIOLATION /tmp/sr.out) violations $(( $(date +%s)-t0 ))s $(grep -m1 rejected: /tmp/sr.err | cut -c1-150)"
done
