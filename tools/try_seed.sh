#!/bin/bash
# try_seed.sh ID...: apply the planted bug to /repo, build, test, run its demo and its check, undo.
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh > /tmp/seed.demo0 2>&1; r0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json > /dev/null 2>&1
  t=$(python3 - <<P
import json
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/seed.json'))
s=json.dumps(b)
want=a.get('passed') or a.get('stable') or a.get('tests') or a
got=set(b.get('passed',[]))
w=[x if isinstance(x,str) else x.get('name') for x in (want if isinstance(want,list) else want.keys())]
print('tests-ok' if all(x in got for x in w) else 'TESTS-FAIL')
P
)
  bash $d/demo.sh > /tmp/seed.demo1 2>&1; r1=$?
  out=$(./check ${CHECK:-$p} 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id $p build=$b $t demo clean=$r0 patched=$r1 check=$c :: $(echo "$out" | head -1 | cut -c1-200)"
done
