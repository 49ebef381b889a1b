#!/bin/bash
# tryseed.sh ID...: runs the check of each planted bug's property against it.
for id in "$@"; do
  d=/verif/seeded/$id
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  c=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$p': print(c['quick_cmd'])")
  s=$(date +%s)
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash -c "$c" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then python3 /verif/tools/seedlog.py "$id" "$p" 1; echo "$id ($p): caught, $(( $(date +%s)-s )) s"; else python3 /verif/tools/seedlog.py "$id" "$p" 0; echo "$id ($p): MISSED rc=$rc"; echo "$out" | tail -3 | cut -c1-300; fi
done
