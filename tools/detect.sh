#!/bin/bash
# tools/detect.sh [id..]: applies each seeded change to /repo, runs its property's quick check, undoes it
cd "$(dirname "$0")/.."
o=$(mktemp)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  timeout 900 bin/check $p quick > $o 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION $o) $(grep -A1 -m1 ^VIOLATION $o | tail -1 | cut -c1-150)"
  [ $rc = 1 ] || tail -4 $o | cut -c1-400
done
