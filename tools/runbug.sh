#!/bin/bash
# tools/runbug.sh ID [PID]: applies seeded/ID to /repo, runs the property's quick check, and undoes it
id=$1; pid=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
cd /verif && python3 mc/run.py $pid --tier quick > /tmp/w/run-$id.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $pid rc=$rc $(grep -c VIOLATION /tmp/w/run-$id.log) violations; $(grep -A1 VIOLATION /tmp/w/run-$id.log | sed -n 2p | cut -c1-200)"
