#!/bin/bash
# tryseed.sh ID...: applies each planted bug, builds, runs the stable tests, its demo and the check of its property.
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && sh $d/demo.sh >/tmp/seed-demo0.log 2>&1); d0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed-test.json >/tmp/seed-test.log 2>&1; t=$?
  nt=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-test.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x: x=x[k]; break
    if isinstance(x,dict): return {k for k,v in x.items() if v in (True,'pass','passed','ok')}
    return set(x)
print(len(names(b)-names(r)))
PY
)
  (cd /repo && sh $d/demo.sh >/tmp/seed-demo.log 2>&1); d1=$?
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh $prop 2>&1); c=$?
  git -C /repo checkout -- .
  echo "$id ($prop): build=$b failing_stable=$nt demo clean=$d0 patched=$d1 check=$c :: $(echo "$out" | grep VIOLATION)"
  echo "$out" | grep -v VIOLATION | head -${LINES_OUT:-4} | cut -c1-300
done
