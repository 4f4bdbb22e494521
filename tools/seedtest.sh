#!/bin/bash
# seedtest.sh ID [checks...]: apply the patch to a scratch copy, build, run the demo there and on /repo,
# then (with -t) the stable tests; finally the property's check against the scratch copy.
id=$1; S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf /tmp/seed/t_$id; mkdir -p /tmp/seed; cp -a /repo /tmp/seed/t_$id; cd /tmp/seed/t_$id || exit 1
git apply $S/patch.diff || { echo "APPLY FAILS"; exit 1; }
( cd grayc && MAKEFILES=/opt/vp/no-sqlite.mk make -s -j8 build >/tmp/seed/log 2>&1 ) || { echo "BUILD FAILS"; tail -5 /tmp/seed/log; exit 1; }
mkdir -p /tmp/seed/d_$id; cp -r $S/. /tmp/seed/d_$id/; rm -f /tmp/seed/d_$id/*.diff /tmp/seed/d_$id/meta.json
( cd /repo; bash /tmp/seed/d_$id/demo.sh >/tmp/seed/o1 2>&1 ); a=$?
( cd /tmp/seed/t_$id; bash /tmp/seed/d_$id/demo.sh >/tmp/seed/o2 2>&1 ); b=$?
echo "$id demo clean=$a patched=$b"; [ $a = 0 ] || head -5 /tmp/seed/o1
[ -n "$T" ] && ( cd /tmp/seed/t_$id; bash /verif/tools/rt_at.sh /tmp/seed/t_$id )
low=$(echo $prop | tr C c)
VERIF_REPO=/tmp/seed/t_$id timeout 900 python3 /verif/checks/$low.py > /tmp/seed/c_$id 2>&1; r=$?
echo "$id $prop check exit $r"; tail -2 /tmp/seed/c_$id | cut -c1-300
rm -rf /tmp/seed/t_$id /tmp/seed/d_$id
