#!/bin/bash
# seed_try.sh ID: confirms a planted bug (applies, builds, stable tests pass, demo 0 without / nonzero with it), then runs its property's check on it.
id=$1; D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
T=$(mktemp -d /tmp/seeddemo.XXXX); cp "$D"/* "$T"/; rm -f "$T"/*.diff "$T"/meta.json
bash "$T/demo.sh" >/tmp/seed_demo0.log 2>&1; d0=$?
git apply "$D/patch.diff" || exit 1
bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_test.log 2>&1
f=$(python3 -c "import json;d=json.load(open('/tmp/seed_t.json'));print(len(d['passed']),d['failed'])")
timeout 300 bash "$T/demo.sh" >/tmp/seed_demo1.log 2>&1; d1=$?
cd /verif; timeout 900 python3 run.py check $P --tier quick >/tmp/seed_check.log 2>&1; rc=$?
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
rm -rf "$T"
echo "$id $P demo $d0/$d1 tests $f check rc=$rc $(grep VIOLATION /tmp/seed_check.log | head -2 | cut -c1-160 | tr '\n' ' ')"
