#!/bin/bash
# usage: try.sh ID... : demo on the clean tree, then with the patch: tests, demo, the property's check
cd /repo
for id in "$@"; do
    d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    bash $d/demo.sh > /tmp/d0.log 2>&1; r0=$?
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh > /tmp/b.log 2>&1; rb=$?
    bash /opt/vp/test.sh /tmp/t.json > /tmp/tt.log 2>&1
    rt=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
f=lambda d: d.get('passed') or d.get('stable') or [k for k,v in d.get('tests',{}).items() if v in('pass','passed',True)]
p=set(map(str,f(t))); m=[x for x in map(str,f(b)) if x not in p]
print(len(m), m[:3])
P
)
    bash $d/demo.sh > /tmp/d1.log 2>&1; r1=$?
    s=$(date +%s); ${CHECK:-/verif/check.sh} $prop quick > /tmp/c.log 2>&1; rc=$?; e=$(date +%s)
    git checkout -q -- .
    echo "$id: demo clean=$r0 build=$rb tests_missing=$rt demo patched=$r1 check=$rc ($((e-s))s) $(grep -m1 VIOLATION /tmp/c.log)"
    [ $r0 = 0 ] || tail -3 /tmp/d0.log; [ $r1 != 0 ] || tail -3 /tmp/d1.log
done
