#!/bin/bash
# trybug.sh ID [notest]: apply a planted bug to /repo, build, run tests, demo and its check; undo.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $d/demo.sh >/tmp/demo.0 2>&1; echo "demo unpatched: $?"
git apply $d/patch.diff || { echo "no apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/bug.build; }
timeout 300 bash $d/demo.sh >/tmp/demo.1 2>&1; echo "demo patched: $?"
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/bug.json'))
m=[x for x in b['stable'] if x not in t['passed']]
print('stable tests lost:',m[:5],len(m))
P
fi
(cd /verif && python3 check.py $prop quick > /tmp/bug.check 2>&1; echo "check $prop: $?"; grep -m3 "^VIOLATION\|BROKEN" /tmp/bug.check)
git checkout -q -- . ; git status --porcelain | head -3
bash /opt/vp/build.sh >/dev/null 2>&1
