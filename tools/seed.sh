#!/bin/bash
# seed.sh ID [nocheck]: confirm a planted bug in a scratch copy bind-mounted over /repo in a private namespace:
# demo passes unpatched, patch applies, 90 tests still pass, demo fails, and report whether the property's check catches it.
ID=$1; D=/verif/seeded/$ID; S=/tmp/seed-$ID
mkdir -p $S && cp -a /repo/. $S/ && git -C $S checkout -q -- . || exit 9
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -rm bash -c "
mount --bind $S /repo; cd /repo; rm -rf /tmp/demo-$ID; cp -r $D /tmp/demo-$ID; rm -f /tmp/demo-$ID/*.diff /tmp/demo-$ID/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash /tmp/demo-$ID/demo.sh >/tmp/demo-$ID.clean 2>&1; echo clean demo rc=\$?
git apply $D/patch.diff || exit 9
bash /opt/vp/test.sh /tmp/demo-$ID.json | tail -1
timeout 300 bash /tmp/demo-$ID/demo.sh >/tmp/demo-$ID.bad 2>&1; echo patched demo rc=\$?
[ '$2' = nocheck ] || { cd /verif; SX_SCRATCH=1 timeout 900 python3 run.py $P --tier quick 2>&1 | grep -v '^{' | cut -c1-300 | tail -4; }
"
rm -rf $S /tmp/demo-$ID
