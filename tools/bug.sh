#!/bin/bash
# tools/bug.sh ID [notest]: verify /verif/seeded/ID against /repo, run its property's check.
id=$1; d=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain | head -1)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git apply --check $d/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo clean rc=$?"
git apply $d/patch.diff
if ! bash /opt/vp/build.sh >/tmp/build.out 2>&1; then echo BUILD FAILED; tail -5 /tmp/build.out; fi
bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo patched rc=$?"
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('/tmp/bug.json'))
m=b-set(r['passed']);print('tests missing:',len(m),sorted(m)[:5])
P
fi
cd /verif; python3 check.py $prop quick 2>&1 | cut -c1-200 | head -${N:-4}; echo "check rc=${PIPESTATUS[0]}"
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
