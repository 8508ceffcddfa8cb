#!/bin/bash
# Development helper: tryseed.sh ID [check]: in a scratch copy of /repo, demo without and with the patch (and the tests with it if TESTS=1)
set -e
ID=$1; S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh > /dev/null 2>&1' EXIT
cd /repo
bash $S/demo.sh > /tmp/demo0.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/demo0.log; }
git apply $S/patch.diff
if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1 || true
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))
p=set(t['passed']); print('tests: missing', [x for x in b if x not in p])
X
else bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/b.log; }; fi
bash $S/demo.sh > /tmp/demo1.log 2>&1 && echo "demo patched: PASSES (bad)" || { echo "demo patched: fails (good)"; tail -3 /tmp/demo1.log; }
cd /verif; for c in ${2:-$P}; do VERIF_TIER=quick timeout 900 python3-vt checks/$c.py > /tmp/chk.log 2>&1 && rc=0 || rc=$?; echo "check $c: rc $rc"; grep -m2 VIOLATION /tmp/chk.log || tail -2 /tmp/chk.log || true; done
