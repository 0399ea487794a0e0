#!/bin/bash
# development tool: which checks catch which planted bug. usage: runseeds.sh [id ...]   (uses scratch copies of /repo)
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  d=seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d); cp -a /repo $w/r; (cd $w/r && git apply /verif/$d/patch.diff) || echo BADPATCH $id
  out=$(VERIF_REPO=$w/r VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_EVIDENCE=$w/ev python3 check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION | cut -c1-200)"
  rm -rf "$w"
done
