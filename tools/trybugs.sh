#!/bin/bash
# trybugs.sh [ID ...]: apply each planted bug to /repo, run the check of its
# property, undo, and print whether the check caught it.
HERE=$(cd "$(dirname "$0")/.." && pwd)
IDS=${*:-$(ls "$HERE/seeded")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in $IDS; do
  d=$HERE/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(cd "$HERE" && timeout 900 ./check.sh "$p" 2>&1); rc=$?
  e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | grep -m1 -i 'class\|key=' | cut -c1-160)"
done
