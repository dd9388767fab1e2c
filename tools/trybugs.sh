#!/bin/bash
# run the check of each planted bug against /repo with the bug applied:  trybugs.sh [ID...]
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  out=$(timeout 900 ./run.py $prop 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $prop rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | grep -m1 '^VIOLATION' ) $(echo "$out" | tail -1 | grep -o '[0-9.]* s$')"
done
