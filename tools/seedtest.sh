#!/bin/bash
# seedtest.sh ID [notest|check]: applies seeded/ID in a scratch copy, builds, runs the stable tests, the demo (unchanged and changed)
# and with "check" the quick check of its property.
ID=$1; V=$(cd "$(dirname "$0")/.."; pwd); S=/tmp/sb.$ID
rm -rf "/tmp/sb.$ID"; cp -a /repo "$S"; cd "$S"
b() { rm -rf lib/libext_mpi_collectives.a bin_tests bin; export HOME=/root OMPI_CC=gcc CCACHE_DISABLE=1; make -j8 lib/libext_mpi_collectives.a >/dev/null 2>"$S/build.err" && make -j8 all >/dev/null 2>>"$S/build.err"; }
b || { echo "$ID: base build failed"; exit 1; }
bash $V/seeded/$ID/demo.sh >"/tmp/seed.$ID.base" 2>&1; echo "$ID base demo rc=$?"
git apply $V/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
b || { echo "$ID: build failed"; tail -3 "$S/build.err"; exit 1; }
bash $V/seeded/$ID/demo.sh >"/tmp/seed.$ID.bug" 2>&1; echo "$ID bug demo rc=$? : $(grep -a -m1 -e expected -e changed -e waited -e rc= -e . /tmp/seed.$ID.bug | head -c 200)"
case "$2" in *test*) mkdir -p /tmp/vp.$ID; for f in /opt/vp/*; do sed "s#/repo#$S#g; s#/opt/vp#/tmp/vp.$ID#g" $f >/tmp/vp.$ID/$(basename $f); done
 bash /tmp/vp.$ID/test.sh /tmp/vp.$ID/out.json >/dev/null 2>&1; python3 - <<P
import json
a=json.load(open('/tmp/vp.$ID/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b.get('passed') or b.get('stable') or b)
print('$ID tests: %d stable tests failed' % len(st-set(a['passed'])), sorted(st-set(a['passed']))[:3])
P
rm -rf "/tmp/vp.$ID";; esac
case "$2" in *check*) P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
 (cd $V; VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO="$S" timeout 900 python3-vt checks/run.py $P --tier quick >/tmp/seed.$ID.check 2>&1; echo "$ID check $P rc=$? : $(grep -a -m1 VIOLATION /tmp/seed.$ID.check | head -c 300)");; esac
[ -n "$KEEP" ] || rm -rf "/tmp/sb.$ID"
