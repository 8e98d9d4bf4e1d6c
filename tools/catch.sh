#!/bin/bash
# Apply each planted bug to /repo in turn, run the check of its property (quick), undo. Usage: tools/catch.sh [ID...]
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
    out=$(VERIF_SEED=${SEED:-1} timeout 900 ./check "$prop" --tier "${TIER:-quick}" --seed "${SEED:-1}" --no-evidence 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$id $prop rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations: $(echo "$out" | grep -o 'monitor [^:]*' | sort -u | head -4 | tr '\n' ' ')"
done
