#!/bin/bash
# seeded.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for b; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b NOAPPLY"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./check.sh "${CHECK:-$p}" quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$b rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 VIOLATION)"
done
