#!/bin/bash
# seed_test.sh ID [notests] : demo passes clean / fails patched, tests pass patched, the property's check reports it
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
tmp=/tmp/seeddemo.$$; mkdir -p $tmp; cp -r $d/. $tmp/; rm -f $tmp/patch.diff $tmp/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$id: clean build failed"; exit 1; }
(cd /repo && timeout 300 bash $tmp/demo.sh >/tmp/demo.clean 2>&1); c=$?
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.out 2>&1 || { echo "$id: patched build FAILED"; tail -5 /tmp/b.out; exit 1; }
(cd /repo && timeout 300 bash $tmp/demo.sh >/tmp/demo.bad 2>&1); b=$?
t=skipped
if [ "$2" != notests ]; then t=$(bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1); fi
DST_SECS=${DST_SECS:-14} VERIF_SEED=1 /verif/bin/check $p >/tmp/chk.out 2>&1; k=$?
v=$(grep '^VIOLATION' /tmp/chk.out | head -1)
rm -rf $tmp
echo "$id ($p): demo clean=$c bad=$b tests=[$t] check rc=$k $v | $(grep 'violation class' /tmp/chk.out | head -1 | cut -c1-150)"
