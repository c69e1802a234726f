#!/bin/bash
# seedtest.sh ID [check]: with the working tree of /repo patched by
# seeded/ID/patch.diff: builds, tests, demo fails, the check reports it; undone:
# demo passes. "new" as second argument takes the patch from the working tree.
id=$1; d=/verif/seeded/$id; shift
cd /repo
if [ "$1" = new ]; then git diff > $d/patch.diff; shift; else git diff --quiet || { echo "repo dirty"; exit 2; }; git apply $d/patch.diff || exit 2; fi
[ -s $d/patch.diff ] || { echo "no patch"; exit 2; }
cp --update=none /verif/tools/demo_template.sh $d/demo.sh; cp /verif/tools/demo_util.h /verif/tools/demo_server.h $d/
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo BUILD FAILS; tail -20 /tmp/seed_build.log; git checkout -q -- .; exit 1; }
bash $d/demo.sh > /tmp/seed_demo.log 2>&1; echo "demo with patch: $?  ($(tail -2 /tmp/seed_demo.log | tr '\n' ' '))"
[ "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/seed_o.json > /tmp/seed_test.log 2>&1; tail -1 /tmp/seed_test.log; python3 - <<P
import json; print(json.load(open('/tmp/seed_o.json'))['failed'])
P
}
[ "$NOCHECK" ] || { cd /verif; timeout 900 python3 run/check.py $prop quick > /tmp/seed_check.log 2>&1; echo "check: $?"; grep -a "VIOLATION" /tmp/seed_check.log | head -3; tail -3 /tmp/seed_check.log | cut -c1-300; }
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1
bash $d/demo.sh > /tmp/seed_demo.log 2>&1; echo "demo clean: $? ($(tail -1 /tmp/seed_demo.log))"
