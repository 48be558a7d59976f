#!/bin/bash
# usage: trycatch.sh ID [PROP]   runs the property's check with the planted bug applied to /repo, then undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply $V/seeded/$id/patch.diff || continue
  (cd $V && timeout 900 python3 an/check.py $P > /tmp/tc.out 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$id $P rc=$r $(grep -c ^VIOLATION /tmp/tc.out) violations"; grep -v "^  " /tmp/tc.out | tail -4
done
