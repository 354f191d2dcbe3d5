#!/bin/bash
# try.sh ID...: run the property's check against a planted bug
for ID in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; continue; }
(cd /verif && timeout 900 python3 run.py $P > /tmp/try-$ID.out 2>&1); rc=$?
git -C /repo checkout -q -- .
echo "$ID ($P): rc=$rc $(grep -m1 -E '^violated|BROKEN|no longer compile' /tmp/try-$ID.out | head -c 300)"
done
