#!/bin/bash
# seedtest.sh [ID...]: runs the property's check against each planted bug, on /repo itself (undone afterwards)
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  s0=$(date +%s)
  timeout 900 ./check.sh $p > /tmp/seed.$s.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s)-s0 ))s $(grep -c ^VIOLATION /tmp/seed.$s.log) $(grep ^VIOLATION /tmp/seed.$s.log | head -1)"
done
