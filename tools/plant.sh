#!/bin/bash
# plant.sh ID [nocheck] : confirm one planted bug (seeded/ID) and run its property's quick check against it.
# Works in /repo's working tree (build.sh knows no other place) and restores it.
set -u
ID=$1; D=/verif/seeded/$ID; W=$(mktemp -d /tmp/plant.XXXXXX)
P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
restore() { git -C /repo checkout -q -- .; }
trap restore EXIT
bash /opt/vp/build.sh >$W/b0 2>&1 || { echo "clean build failed"; exit 2; }
cp -a $D $W/demo
(cd /repo && timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1); echo "$ID demo clean rc=$?"
git -C /repo apply $D/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "patched build failed"; tail -5 $W/b1; exit 2; }
(cd /repo && timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1); echo "$ID demo patched rc=$? ($(tail -1 $W/d1))"
if [ "${2:-}" != notest ]; then
bash /opt/vp/test.sh $W/o.json >$W/t 2>&1
python3 - $W/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
base=b['stable']
miss=[t for t in base if t not in set(o['passed'])]
print('stable tests failing:',len(miss),miss[:5])
P
fi
if [ "${2:-}" != nocheck ]; then
cd /verif; for p in $P ${3:-}; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run_check.py $p quick >$W/c 2>&1; echo "$ID check $p rc=$? $(grep -m2 VIOLATION $W/c)"; done
fi
rm -rf "$W"
