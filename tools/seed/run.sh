#!/bin/bash
# Runs the checks of the planted bugs' properties against them: run.sh [ids]; needs a clean /repo.
cd /verif
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 python3 check.py run $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' <<<"$out")"
done
