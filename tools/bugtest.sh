#!/bin/bash
# bugtest.sh SEEDED_DIR [--notests] [CHECK...] : try a planted change in a private copy of /repo (own mount namespace).
S=$(realpath "$1"); shift
NOT=0; [ "$1" = --notests ] && { NOT=1; shift; }
W=$(mktemp -d /var/tmp/bug.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo; git clone -q /verif $W/verif 2>/dev/null || cp -a /verif $W/verif
rm -rf $W/verif; cp -a /verif $W/verif; rm -rf $W/verif/seeded $W/verif/evidence; mkdir $W/verif/evidence
cp $S/patch.diff $W/patch.diff; mkdir $W/demo; cp -a $S/. $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH=${*:-$PROP}
export W S NOT CH
unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount -t tmpfs none /tmp
cd /repo; bash $W/demo/demo.sh >$W/d0.log 2>&1; echo "demo unchanged rc=$?"
git checkout -q -- . ; git clean -fdq >/dev/null
git apply $W/patch.diff || { echo PATCH FAILS; exit 1; }
bash $W/demo/demo.sh >$W/d1.log 2>&1; rc=$?; echo "demo patched rc=$rc"; tail -3 $W/d1.log
[ $rc = 0 ] && { echo "--- unchanged-run log"; tail -5 $W/d0.log; }
cd /verif
for c in $CH; do lc=$(echo $c | tr A-Z a-z); s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/$lc.py > $W/c.log 2>&1; echo "check $c rc=$? ($(($(date +%s)-s)) s)"; grep -m2 VIOLATION $W/c.log; tail -2 $W/c.log | cut -c1-300; done
if [ $NOT = 0 ]; then bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILS; bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$W/out.json"))
st=set(b.get("stable") or b.get("passed") or b.get("tests") or b)
f=[t for t in st if t not in set(o["passed"])]
print("stable",len(st),"failed now:",len(f),sorted(f)[:5])
P
fi'
