#!/bin/bash
# seeds.sh [ID...] : apply each planted bug to /repo, run the check of its property, undo. For development only.
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  PS_SKIP_BUILD=1 ./check.sh $p > build/seed.log 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$s $p exit=$r $(grep -c '^VIOLATION' build/seed.log) $(grep '^  [a-z]' build/seed.log | head -3 | cut -c1-150 | tr '\n' '|')"
done
