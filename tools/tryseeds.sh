#!/bin/bash
# tryseeds.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo it
cd /verif
for s in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick >/tmp/seedwork/$s.out 2>&1; rc=$?
    git -C /repo checkout -q -- .
    echo "$s $p rc=$rc $(grep -m1 VIOLATION /tmp/seedwork/$s.out)"
done
