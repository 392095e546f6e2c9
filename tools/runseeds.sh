#!/bin/bash
# runseeds.sh [id...]: applies each planted change to a scratch copy and runs its property's check there (VP_REPO); prints caught/missed
V=$(cd "$(dirname "$0")/.." && pwd)
for d in ${@:-$(ls $V/seeded)}; do
  t=$(mktemp -d /tmp/rs.XXXXXX); git -C /repo archive HEAD | tar -x -C $t
  (cd $t && git init -q . && git apply $V/seeded/$d/patch.diff) || { echo "$d: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$d/meta.json'))['property'])")
  s=$(date +%s)
  out=$(VP_EVIDENCE=$t VP_REPO=$t timeout 900 python3 $V/check.py $p quick 2>&1); rc=$?
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -E '^(FAILED|VIOLATION)' | cut -c1-220 | tr '\n' '|')"
  rm -rf "$t"
done
