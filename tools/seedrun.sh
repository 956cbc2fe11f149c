#!/bin/bash
# runs the check of each planted bug's property with the bug applied to /repo:  seedrun.sh [ID...]
cd "$(dirname "$0")/.." || exit 1
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  python3 tools/seed_record.py "$d" "$rc" <<<"$out"
  echo "$d $p rc=$rc $(grep -c '^failing input' <<<"$out") inputs, $(grep -c '^failed obligation' <<<"$out") obligations: $(grep VIOLATION <<<"$out") | $(tail -1 <<<"$out" | cut -c1-200)"
done
