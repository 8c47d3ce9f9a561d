#!/bin/bash
# tools/seed.sh <id> <property>...: validate seeded/<id> against /repo and run the named checks on it
ID=$1; shift; S=/verif/seeded/$ID; cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
git apply --check "$S/patch.diff" || exit 2
git apply "$S/patch.diff"
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || echo "$ID: BUILD FAILS"
bash /opt/vp/test.sh /tmp/seed-test.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed-test.json'))
def names(x):
    for k in ('passed','pass','stable','tests','stable_pass'):
        if isinstance(x,dict) and k in x: return set(map(str,x[k]))
    return set(map(str,x))
bs,os_=names(b),names(o)
print('tests missing:',sorted(bs-os_)[:5]) if bs-os_ else print('tests ok',len(os_))
P
bash "$S/demo.sh" >/tmp/seed-demo.log 2>&1; echo "$ID: demo with patch rc=$? ($(tail -1 /tmp/seed-demo.log | cut -c1-150))"
for P in "$@"; do (cd /verif; timeout 900 ./check $P quick >/tmp/seed-check.log 2>&1; echo "$ID: check $P rc=$? $(grep -m1 -A1 '^case' /tmp/seed-check.log | tr '\n' ' ' | cut -c1-250)"); done
git checkout -- .
[ -n "$NOCLEAN" ] || { bash /opt/vp/build.sh >/dev/null 2>&1; bash "$S/demo.sh" >/tmp/seed-demo.log 2>&1; echo "$ID: demo clean rc=$? ($(tail -1 /tmp/seed-demo.log | cut -c1-150))"; }
