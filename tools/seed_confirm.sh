#!/bin/bash
# tools/seed_confirm.sh ID [check]      confirm a planted bug in a scratch copy of /repo (bind-mounted over /repo in a private
# mount namespace, so that neither /repo nor /verif changes), and with "check" also run that property's quick check on it.
ID=$1
W=/tmp/seed/$ID
rm -rf "/tmp/seed/$ID"; mkdir -p "$W/scratch"
cp -a /repo "$W/repo"
cp -a ${SEEDED:-/verif/seeded}/$ID "$W/bug"
P=$(python3 -c "import json;print(json.load(open('${SEEDED:-/verif/seeded}/$ID/meta.json'))['property'])")
if [ "$2" = check ]; then mkdir "$W/verif"; (cd ${VERIF:-/verif} && tar cf - --exclude=./seeded --exclude=./scratch . ) | tar xf - -C "$W/verif"; fi
export W P ID
unshare -Urm bash -c '
mount --bind $W/repo /repo || exit 3
cd /repo
[ -d $W/verif ] && mount --bind $W/verif /verif
if [ -z "$SKIP" ]; then
bash $W/bug/demo.sh >$W/demo0 2>&1; D0=$?
git apply $W/bug/patch.diff || { echo "$ID patch does not apply"; exit 3; }
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$ID does not build"; tail -5 $W/build.log; exit 3; }
bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; T=$?
cd /repo; bash $W/bug/demo.sh >$W/demo1 2>&1; D1=$?
echo "$ID property=$P demo-clean=$D0 tests=$(tail -1 $W/test.log) demo-bug=$D1"
[ $D0 = 0 ] || tail -3 $W/demo0
tail -2 $W/demo1
else git apply $W/bug/patch.diff || exit 3
fi
if [ -d $W/verif ]; then
 cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 run.py $P >$W/check.log 2>&1; R=$?
 echo "$ID check exit=$R"; grep -m3 -A1 VIOLATION $W/check.log; [ $R = 2 ] && tail -3 $W/check.log
fi
'
rm -rf "/tmp/seed/$ID"
