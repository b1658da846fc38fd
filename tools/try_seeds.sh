#!/bin/bash
# Development helper: applies each planted change to /repo, runs its property's quick check, undoes it.
cd /verif || exit 1
for id in ${@:-$(ls seeded)}; do
  [ -f seeded/$id/patch.diff ] || continue
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply --check /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  git -C /repo apply /verif/seeded/$id/patch.diff
  s=$(date +%s)
  ./run_check $p > /tmp/try_$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try_$id.log)"
done
