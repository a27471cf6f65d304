#!/bin/bash
# runs each planted bug's check against it: tools/seeds.sh [name-prefix]   (uses /repo's working tree, restores it)
cd /verif
for d in seeded/$1*/; do
  id=$(basename "$d"); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
  s=$(date +%s); out=$(timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && echo "$out" | grep -q "VIOLATION property=$p "; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id $p $r $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
done
