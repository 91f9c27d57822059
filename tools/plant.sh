#!/bin/bash
# tools/plant.sh ID [nocheck]  confirms one planted bug in a scratch copy (bind-mounted over /repo in a private mount namespace):
# applies, builds, stable tests pass, demo 0 without / non-zero with the patch, and which checks report it.
ID=$1; MODE=$2; S=/verif/seeded/$ID; W=/tmp/plant/$ID
mkdir -p /tmp/plant; [ -d $W ] && find $W -mindepth 1 -delete; mkdir -p $W
cp -a /repo $W/repo; mkdir -p $W/verif; (cd /verif && tar cf - --exclude=build --exclude=evidence --exclude=.git . ) | tar xf - -C $W/verif; mkdir -p $W/verif/build $W/verif/evidence $W/demo
cp -a /verif/build/lib /verif/build/obj $W/verif/build/ 2>/dev/null
cp $S/* $W/demo/
cat > $W/run.sh <<R
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
bash /opt/vp/build.sh > $W/build0.log 2>&1 || { echo "$ID base build failed"; exit 1; }
timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1; d0=\$?
git apply $W/demo/patch.diff || { echo "$ID does not apply"; exit 1; }
bash /opt/vp/build.sh > $W/build1.log 2>&1 || { echo "$ID patched build failed"; tail -5 $W/build1.log; exit 1; }
timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; d1=\$?
t=skipped
if [ "$MODE" != nocheck ] && [ "$MODE" != notest ]; then bash /opt/vp/test.sh $W/t.json > /dev/null 2>&1
t=\$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('$W/t.json'))
f=[x for x in b if x not in o['passed']]
print('tests-ok' if not f else 'TESTS-FAIL '+' '.join(f))
P
); fi
c=skipped
if [ "$MODE" != nocheck ]; then
P=\$(python3 -c "import json;print(json.load(open('$W/demo/meta.json'))['property'])")
cd /verif; timeout 900 python3 mc/run.py \$P quick > $W/check.log 2>&1; r=\$?
c="check-rc=\$r \$(grep -m1 VIOLATION $W/check.log)"
fi
echo "$ID demo \$d0/\$d1 \$t \$c"
R
unshare -m bash $W/run.sh; [ "$KEEP" ] || { mv $W/*.log /tmp/wip/ 2>/dev/null; find $W -mindepth 1 -delete; rmdir $W; }
