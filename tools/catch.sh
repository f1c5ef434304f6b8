#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's check, undo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s)
  out=$(timeout 900 python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep VIOLATION | sed 's/.*replays//') | $(echo "$out" | grep '^obligation' | head -2 | cut -c1-150 | tr '\n' ';') | $(echo "$out" | grep '^failing input' | cut -c1-150)"
done
