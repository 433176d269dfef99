#!/bin/bash
# tryseed.sh ID...: runs the check of each planted change against a scratch copy with it
for id in "$@"; do
rm -rf /tmp/m; mkdir -p /tmp/m; cp -a /repo/src /repo/examples /tmp/m/
(cd /tmp/m && patch -s -p1 < /verif/seeded/$id/patch.diff) || echo "PATCH FAILS"
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /verif; AVB_REPO=/tmp/m python3 check.py $p > /tmp/ts.out; echo "$id $p exit $?"; grep -v VIOLATION /tmp/ts.out | tail -1
done
