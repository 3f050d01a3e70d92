#!/bin/bash
# tools/tryseeds.sh [seed...]: applies each planted bug to /repo, runs the check of its property, undoes it
cd "$(dirname "$0")/.." || exit 2
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  bash check.sh $p >/tmp/tryseed.out 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " /tmp/tryseed.out; then echo "$s: caught by $p ($(grep -c VIOLATION /tmp/tryseed.out)) $(grep -m1 violates /tmp/tryseed.out | sed 's/.*violates//')"; else echo "$s: MISSED by $p (rc=$rc) $(tail -1 /tmp/tryseed.out)"; fi
done
