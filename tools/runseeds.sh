#!/bin/bash
# runs, for each planted bug (or those named), the check of its property with the bug applied
cd /verif
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
    s=$SECONDS
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p --tier quick > /tmp/seed.$d.out 2>&1; rc=$?
    git -C /repo checkout -- .
    echo "$d $p rc=$rc $((SECONDS-s))s $(grep -h VIOLATION /tmp/seed.$d.out | head -1)"
done
