#!/bin/bash
# try_bug.sh <seeded id> [check ids...]: applies the planted bug to /repo, builds, runs the stable tests, its demo
# and the checks (default: the property in meta.json), and undoes it.
set -u
d=/verif/seeded/$1; shift
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
checks=${*:-$prop}
cd /repo || exit 1
[ -z "$(git status --short --untracked-files=no)" ] || { echo "/repo is not clean"; exit 1; }
git apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/bug_build.log 2>&1 || { echo "DOES NOT BUILD"; tail -20 /tmp/bug_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/bug_t.json > /tmp/bug_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/bug_t.json'))
st=[v for v in b.values() if isinstance(v,list) and len(v)>=90][0]
p=set(t.get('passed',[]))
m=[x for x in st if (x if isinstance(x,str) else x.get('name')) not in p]
print('TESTS', 'pass' if not m else 'FAIL %s' % m)
P
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/bug_demo.log 2>&1); echo "demo with the bug: exit $? ($(tail -1 /tmp/bug_demo.log))"
for c in $checks; do
  (cd /verif && ./run_check.sh $c > /tmp/bug_check.log 2>&1); r=$?
  echo "check $c: exit $r $(grep -m1 VIOLATION /tmp/bug_check.log)"; grep -m1 -i "message\|fail" /tmp/bug_check.log | cut -c1-220
done
git checkout -q -- .
trap - EXIT
bash /opt/vp/build.sh > /tmp/bug_build.log 2>&1
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/bug_demo.log 2>&1); echo "demo without it: exit $?"
