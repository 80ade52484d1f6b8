#!/bin/bash
# development aid: catch.sh ID PROP... : run checks against a planted change applied to /repo
ID=$1; shift
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 9
P=$@; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
for p in $P; do /verif/check $p quick >/tmp/catch.out 2>&1; rc=$?; echo "$ID $p rc=$rc $(grep -c ^VIOLATION /tmp/catch.out) $(grep -m1 '^  \[' /tmp/catch.out | cut -c1-160)"; [ $rc -ge 2 ] && tail -3 /tmp/catch.out; done
git -C /repo checkout -- .
