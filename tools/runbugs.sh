#!/bin/bash
# runbugs.sh [-c "C01 C02"] [bug...]: applies each seeded change to /repo, runs the check of its property
# (or the ones given), undoes the change.
CS=""; [ "$1" = -c ] && { CS="$2"; shift 2; }
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for b in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || continue
  for c in ${CS:-$P}; do
    S=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $c > /tmp/bug.$b.$c 2>&1; R=$?
    echo "$b $c rc=$R $(( $(date +%s) - S ))s $(grep -c ^VIOLATION /tmp/bug.$b.$c) violations: $(grep -A1 -m1 ^VIOLATION /tmp/bug.$b.$c | tail -1 | cut -c1-200)"
  done
  git -C /repo checkout -- .
done
