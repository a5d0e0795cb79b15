#!/bin/bash
# tryseed.sh ID...  applies each seeded change to /repo, runs its property's check, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); timeout 900 ./check $p > /tmp/try.$id 2>&1; k=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$k $(( $(date +%s) - s ))s $(grep -a -A1 VIOLATION /tmp/try.$id | sed -n 2p | cut -c1-220)"
done
