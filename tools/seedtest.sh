#!/bin/bash
# seedtest.sh [-c] id...: confirms planted bugs in a scratch copy of /repo (and of /verif), seen at their usual places in a
# private mount namespace. -c: check only (skip build, tests, demonstration).
V=/verif
if [ "$1" = "--inner" ]; then
    id=$2; what=$3; out=/tmp/seedwork/$id
    mount --bind $out/repo /repo && mount --bind $out/verif /verif || exit 3
    prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    cd /repo
    if [ "$what" != -c ]; then
        bash /verif/seeded/$id/demo.sh > $out/demo0.log 2>&1; d0=$?
        git apply /verif/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
        bash /opt/vp/build.sh > $out/build.log 2>&1; b=$?
        bash /opt/vp/test.sh $out/t.json > $out/test.log 2>&1
        t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$out/t.json'))
names=lambda x: set(x if isinstance(x,list) else x.keys())
print(len([x for x in o['failed']]), len(o['passed']))
P
)
        bash /verif/seeded/$id/demo.sh > $out/demo1.log 2>&1; d1=$?
    else
        git apply /verif/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
        d0=-; b=-; t=-; d1=-
    fi
    cd /verif
    VERIF_SEED=1 VERIF_TIER=quick python3 check.py $prop > $out/check.log 2>&1; k=$?
    v=$(grep -c "^VIOLATION property=$prop " $out/check.log)
    echo "$id ($prop): demo-unpatched=$d0 build=$b failed/passed=$t demo-patched=$d1 check-exit=$k violation-lines=$v"
    exit 0
fi
what=-a
[ "$1" = -c ] && { what=-c; shift; }
for id in "$@"; do
    out=/tmp/seedwork/$id
    rm -rf "/tmp/seedwork/$id"; mkdir -p $out
    cp -a /repo $out/repo
    mkdir $out/verif; (cd $V && tar cf - --exclude=./work --exclude=./target --exclude=./.git .) | tar xf - -C $out/verif
    [ -d $V/work/target-core ] && mkdir -p $out/verif/work && cp -a $V/work/target-core $out/verif/work/
    unshare -m bash $V/tools/seedtest.sh --inner $id $what
    cp $out/check.log /tmp/seedwork/$id.log 2>/dev/null
    rm -rf "/tmp/seedwork/$id/repo" "/tmp/seedwork/$id/verif"
done
