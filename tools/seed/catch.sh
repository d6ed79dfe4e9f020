#!/bin/bash
# catch.sh ID...: run the check of each seed's property on a scratch copy with the seed applied
for s in "$@"; do
 d=$(mktemp -d /tmp/catch_XXXX); cp -a /repo/. $d/; (cd $d && git apply /verif/seeded/$s/patch.diff)
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 t0=$(date +%s); VERIF_REPO=$d python3 /verif/check.py $p > $d/out 2>&1; rc=$?
 echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 -A1 '^VIOLATION\|  rule' $d/out | grep rule | cut -c1-200) und=$(grep -c UNDECIDED $d/out)"
 rm -rf $d
done
