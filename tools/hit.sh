#!/bin/bash
# tools/hit.sh <seeded id>...: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -c "^VIOLATION property=$p " <<<"$out")"
done
