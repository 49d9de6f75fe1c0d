#!/bin/bash
# seedtest.sh ID [no-check | CHECK...]: in a private copy-on-write view of /repo and /verif, confirms a planted bug
# (builds, passes the stable tests, demo.sh tells it from the unchanged tree) and runs the check of its property against it.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "$SEEDTEST_INNER" ]; then
    W=$(mktemp -d /tmp/seedtest.XXXXXX)
    mkdir -p $W/ru $W/rw $W/vu $W/vw $W/demo
    cp -a $V/seeded/$ID/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
    SEEDTEST_INNER=$W unshare -m bash "$0" "$ID" "$@"
    rc=$?
    rm -rf "$W"
    exit $rc
fi
W=$SEEDTEST_INNER
mount -t overlay overlay -o lowerdir=/repo,upperdir=$W/ru,workdir=$W/rw /repo || exit 9
mount -t overlay overlay -o lowerdir=$V,upperdir=$W/vu,workdir=$W/vw $V || exit 9
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
cd /repo || exit 9
if [ "$1" != check-only ]; then
bash /opt/vp/build.sh >$W/b0 2>&1
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; d0=$?
git apply $V/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 8; }
bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "$ID: does not build"; tail -20 $W/b1; exit 8; }
bash /opt/vp/test.sh $W/o.json >$W/t1 2>&1
t=$(python3 -c "
import json
o=json.load(open('$W/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','tests','stable'):
            if k in x: return set(map(str,x[k]))
    return set(map(str,x))
print(len(o['passed']),len(o['failed']),*o['failed'][:3])")
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; d1=$?
echo "$ID ($P): tests $t; demo unchanged $d0, with the bug $d1"
[ $d0 = 0 ] || tail -5 $W/d0
[ $d1 != 0 ] && tail -2 $W/d1 | cut -c1-200
else git apply $V/seeded/$ID/patch.diff || exit 8; shift; fi
[ "$1" = no-check ] && exit 0
cd $V
for c in ${*:-$P}; do
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 checks/$c.py --tier quick >$W/c1 2>&1; r=$?
    echo "$ID: check $c exits $r $(grep -c '^VIOLATION property='$c $W/c1) violations; $(tail -1 $W/c1 | cut -c1-150)"
    grep -B1 '^VIOLATION' $W/c1 | head -2 | cut -c1-300
done
exit 0
