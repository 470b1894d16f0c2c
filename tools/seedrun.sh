#!/bin/bash
# dev helper: seedrun.sh [ID...]  applies each planted bug in /repo, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  out=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc | $(echo "$out" | grep -c '^FAILED OBL') failed obligations, $(echo "$out" | grep -c '^FAILING INPUT') failing inputs | $(echo "$out" | grep '^UNDECIDED' | head -2 | cut -c1-150)"
done
