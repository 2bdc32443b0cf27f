#!/bin/bash
# Apply each planted bug to /repo, run the quick check of its property, undo.
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(./check.sh "${PROP:-$p}" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${PROP:-$p} rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 -A1 VIOLATION | tr '\n' ' ' | cut -c1-330)"
done
