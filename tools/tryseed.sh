#!/bin/bash
# tryseed.sh SEEDED_DIR [notest|nocheck] : validates a planted bug in a private copy of /repo (bind mounted
# over /repo in a private mount namespace), then runs the property's check against it.
d=$(realpath "$1"); mode=$2; w=/tmp/sw.$$; V=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "$IN_NS" ]; then
  cp -a /repo $w; IN_NS=1 W=$w unshare -Urm bash "$0" "$d" "$mode"; rc=$?; rm -rf "$w" "$w.b" "$w.d" "$w.v"; exit $rc
fi
mount --bind $W /repo; cd /repo; mkdir -p $W.d; cp -r "$d"/. $W.d; rm -f $W.d/*.diff $W.d/meta.json
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BASE BUILD FAILED"
if [ "$mode" != nodemo ]; then timeout 300 bash $W.d/demo.sh > $W.d/o1 2>&1; rc=$?; echo "demo unchanged rc=$rc $(tail -1 $W.d/o1|cut -c1-100)"; fi
git apply "$d/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 2; }
bash /opt/vp/build.sh > $W.d/bl 2>&1 || { echo "BUILD FAILED"; tail -5 $W.d/bl; exit 2; }
if [ "$mode" != nodemo ]; then timeout 300 bash $W.d/demo.sh > $W.d/o2 2>&1; rc=$?; echo "demo patched rc=$rc $(tail -1 $W.d/o2|cut -c1-100)"; fi
if [ -z "$mode" ]; then bash /opt/vp/test.sh $W.d/t.json >/dev/null 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W.d/t.json'))
st=b.get('stable') or b.get('passed') or b.get('stable_pass') or []
print('tests: passed',len(t['passed']),'missing stable:',[x for x in st if x not in t['passed']][:4])
P
fi
if [ "$mode" != nocheck ]; then
  mkdir -p $W.v; cp -r $V/known $V/known_findings.txt $W.v/
  B=$(VERIF_BUILD=$W.b bash $V/sim/build.sh) || exit 3
  $B/msim-native check --property $prop --tier quick --seed ${VERIF_SEED:-1} --verif $W.v > $W.d/c 2>&1; rc=$?; echo "check $prop rc=$rc $(grep -m1 VIOLATION $W.d/c | cut -c1-60) $(grep -a -m1 ^violation $W.d/c | cut -c1-140) $(tail -1 $W.d/c|grep -o wall=.*)"
fi
