#!/bin/bash
# trybug.sh ID... : applies each seeded change to /repo, runs the check of its property, undoes it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  cmd=$(python3 -c "import json;print([c for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$p'][0]['quick_cmd'])" 2>/dev/null || echo "python3 check.py $p quick")
  s=$(date +%s); (cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash -c "$cmd" >/tmp/try.$id.log 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try.$id.log | cut -c1-150)"
  [ $rc = 1 ] || tail -3 /tmp/try.$id.log
done
