#!/bin/bash
# usage: tools/catch.sh SEED... : runs the check of each planted bug's property with the bug applied to /repo
cd "$(dirname "$0")/.." || exit 2
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  st=$(date +%s)
  out=$(bash run.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s) - st ))s :: $(echo "$out" | grep -v '^VIOLATION' | tail -1 | cut -c1-220)"
done
