#!/bin/bash
# runs the check of each seeded bug's property with the bug applied to /repo
cd /verif
for d in ${@:-seeded/*}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  timeout 900 python3-vt -m dv.check $p > /tmp/try_$id.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/try_$id.txt) $(grep VIOLATION /tmp/try_$id.txt | head -1 | cut -c1-150)"
done
