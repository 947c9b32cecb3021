#!/bin/bash
# usage: tools/seed.sh <id> [nocheck]  - confirm a planted bug in a private copy of /repo and run its check against it
id=$1; S=/verif/seeded/$id; W=/tmp/seedwt-$id
[ -n "$W" ] && rm -rf "$W"
cp -a /repo $W && git -C $W checkout -q -- . || exit 2
export id S W MODE=$2
unshare -m bash -c '
mount --bind $W /repo || exit 2
D=$(mktemp -d /tmp/demo-XXXXXX); cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
cd /repo
bash /opt/vp/build.sh >/tmp/seed-$id.log 2>&1 || { echo "$id: base build failed"; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/seed-$id.demo0 2>&1; r0=$?
git apply $S/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh >>/tmp/seed-$id.log 2>&1 || { echo "$id: build failed"; exit 1; }
t=$(bash /opt/vp/test.sh /tmp/seed-$id.json 2>&1 | tail -1)
timeout 300 bash $D/demo.sh >/tmp/seed-$id.demo1 2>&1; r1=$?
p=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
echo "$id ($p): demo base=$r0 patched=$r1 tests: $t"
if [ "$MODE" != nocheck ]; then cd /verif; VERIF_SEED=1 python3 check.py $p quick > /tmp/seed-$id.check 2>&1; echo "$id check rc=$? $(tail -2 /tmp/seed-$id.check | cut -c1-200)"; fi
rm -rf "$D"
'
rm -rf "$W"
