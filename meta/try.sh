#!/bin/bash
# try.sh ID : run the property's check against the planted change (in place in /repo, undone straight afterwards)
id=$1; d=${VERIF_DIR:-/verif}/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C ${VERIF_REPO:-/repo} apply "$d/patch.diff" || exit 1
(cd ${VERIF_DIR:-/verif} && ./check.sh $p > /tmp/try_$id.log 2>&1); rc=$?
git -C ${VERIF_REPO:-/repo} checkout -- .
echo "$id ($p): rc=$rc $(grep -c VIOLATION /tmp/try_$id.log) $(grep 'broken clause' /tmp/try_$id.log | cut -c1-110 | head -3)"
