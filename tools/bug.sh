#!/bin/bash
# tools/bug.sh ID [PROP...]: apply seeded/ID to /repo, build, run the tests, the demo and the checks, and undo.
cd "$(dirname "$0")/.." || exit 3
id=$1; shift; d=$PWD/seeded/$id; P=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 3; }
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.log 2>&1); echo "demo clean: $? (want 0)"
git -C /repo apply --check $d/patch.diff && git -C /repo apply $d/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/bug.build 2>&1; echo "build: $? (want 0)"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/bug.test.json >/tmp/bug.test 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/bug.test.json'))['passed']); print('stable tests broken:', sorted(b-t))"; fi
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.log 2>&1); echo "demo patched: $? (want nonzero)"; tail -3 /tmp/demo.log
for p in $P; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p quick >/tmp/bug.check 2>&1; echo "check $p: $?"; grep -a VIOLATION -B3 /tmp/bug.check | cut -c1-400; done
