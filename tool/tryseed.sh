#!/bin/bash
# tryseed.sh <id> [check...]: demo on clean tree, apply, run checks, rebuild one config and run demo, revert
id=$1; shift
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
for c in ${@:-$P}; do timeout 900 python3 /verif/checks/run.py $c > /tmp/try.$id.$c.log 2>&1; echo "$id check $c rc=$?"; grep -a -E "^  /|^  src|VIOLATION|BROKEN|UNDEC" /tmp/try.$id.$c.log | cut -c1-220 | head -4; done
git -C /repo apply -R /verif/seeded/$id/patch.diff
