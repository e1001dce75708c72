#!/bin/bash
# trybug.sh ID [tier] - run the check of the bug's property against it in a scratch copy of /repo
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/trybug_XXXXXX); cp -a ${PLANT_SRC:-/repo} $w/repo; git -C $w/repo checkout -q -- .
git -C $w/repo apply $d/patch.diff || exit 3
cd /verif; s=$(date +%s)
VERIF_REPO=$w/repo VERIF_EVIDENCE=$w timeout 900 /opt/venv/bin/python harness/check.py $prop ${2:-quick} > /tmp/try_$id.log 2>&1; rc=$?
echo "$id $prop rc=$rc $(( $(date +%s) - s ))s : $(grep -m1 'violated:' /tmp/try_$id.log | cut -c1-200) $( [ $rc -gt 1 ] && tail -3 /tmp/try_$id.log)"
rm -rf "$w"
