#!/bin/bash
# trybug.sh <id> [nodemo|checkonly]: base demo, then patched build+tests+demo+check, then undo.
id=$1; mode=$2
B=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
cd /repo
if [ -z "$mode" ]; then bash /opt/vp/build.sh >/tmp/tb.log 2>&1; bash $B/demo.sh > /tmp/tb.demo0 2>&1; echo "$id base demo rc=$?"; fi
git -C /repo apply $B/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$mode" != checkonly ]; then
 bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "$id BUILD FAILS"; tail -20 /tmp/tb.log; }
 bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
 python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
def names(x):
    return set(x.get('passed',x.get('stable',x)) if isinstance(x,dict) else x)
B=set(b['stable']); Rp=set(r.get('passed',[]))
print("  baseline",len(B),"now",len(Rp),"lost",sorted(B-Rp)[:5])
PY
 bash $B/demo.sh > /tmp/tb.demo1 2>&1; echo "$id patched demo rc=$? ($(tail -1 /tmp/tb.demo1 | cut -c1-150))"
fi
cd ${V:-/verif} && timeout 900 python3 check.py $P > /tmp/tb.check 2>&1; echo "$id check $P rc=$?"; grep -v "^  undecided" /tmp/tb.check | cut -c1-200 | tail -6
