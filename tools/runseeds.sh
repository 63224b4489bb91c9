#!/bin/bash
# runseeds.sh [ids...]
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLYFAIL"; continue; }
 s=$(date +%s)
 ./run.sh $p quick > /tmp/rs_$i.log 2>&1; rc=$?
 git -C /repo checkout -- .
 echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -A1 VIOLATION /tmp/rs_$i.log | tail -1 | cut -c1-150)"
done
