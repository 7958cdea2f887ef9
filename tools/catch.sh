#!/bin/bash
# tools/catch.sh ID...: apply each planted change to /repo, run its property's quick check, undo.
V=$(cd "$(dirname "$0")/.." && pwd)
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$i/patch.diff" || { echo "$i: no apply"; continue; }
  timeout 900 bash "$V/run.sh" "$P" quick >/tmp/catch.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$i: $P exit=$r $(grep -m1 VIOLATION /tmp/catch.out | cut -c1-150)"
done
