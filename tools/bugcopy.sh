#!/bin/bash
# bugcopy.sh <id>...: runs only the check of each planted bug on a patched copy (VERIF_REPO), leaving /repo alone.
for id in "$@"; do
 P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /tmp/bugrepo checkout -q -- . ; git -C /tmp/bugrepo apply /verif/seeded/$id/patch.diff || continue
 cd /verif; VERIF_REPO=/tmp/bugrepo timeout 900 python3 check.py $P > /tmp/bc.$id 2>&1; echo "$id $P rc=$? $(grep -c ^VIOLATION /tmp/bc.$id) $(grep ^VIOLATION -A1 /tmp/bc.$id | head -2 | cut -c1-180 | tr '\n' ' ')"
done
git -C /tmp/bugrepo checkout -q -- .
