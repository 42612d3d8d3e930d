#!/bin/bash
# tools/matrix.sh [id...]: applies each planted bug to /repo, runs the check of
# its property, undoes it, and prints what the check said. ALSO="C01 C02" adds checks.
cd "$(dirname "$0")/.." || exit 2
for d in ${*:-$(ls seeded)}; do
    d=$(basename "$d")
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
    for c in $p $ALSO; do
        s=$(date +%s)
        out=$(timeout 900 ./check $c 2>&1); rc=$?
        echo "$d $c rc=$rc $(($(date +%s) - s))s $(echo "$out" | grep -m1 '^VIOLATION')"
    done
    git -C /repo checkout -q -- .
done
