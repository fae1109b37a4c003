#!/bin/bash
# tryseeds.sh [ids...]: applies each planted change to /repo, runs its property's check, undoes it
V="$(cd "$(dirname "$0")/.." && pwd)"
for id in ${@:-$(ls "$V/seeded")}; do
  p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(cd $V && VERIF_SEED=1 timeout 900 ./check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c 'not discharged' <<<"$out") undischarged; $(grep VIOLATION <<<"$out" | head -1) $(grep -o 'property P.*s$' <<<"$out" | tail -1)"
  [ -n "$SEED_V" ] && echo "$out" | grep -E "not discharged|FAILING|harness" | head -12
done
