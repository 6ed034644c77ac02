#!/bin/bash
# try_seed.sh ID...: confirms seeded changes in a scratch copy: applies, builds, tests pass, demo passes without and fails with it;
# then runs the check of its property on the changed copy.
here=$(cd "$(dirname "$0")/.." && pwd)
export DEMO_TARGET=/tmp/w/demotarget
. /opt/vp/env.sh
for id in "$@"; do
  s=$here/seeded/$id
  git -C /repo apply --check "$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash "$s/demo.sh" >/tmp/w/demo0.log 2>&1; a=$?
  git -C /repo apply "$s/patch.diff"
  bash /opt/vp/test.sh /tmp/w/res.json >/tmp/w/test.log 2>&1
  t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open('/tmp/w/res.json'))['passed'])
print('tests-ok' if b<=r else 'TESTS-FAIL %s'%sorted(b-r)[:3])
P
)
  bash "$s/demo.sh" >/tmp/w/demo1.log 2>&1; b=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  c=$(cd $here && timeout 900 ./check.sh $p quick 2>&1 | tail -4 | cut -c1-200)
  git -C /repo checkout -- .
  echo "$id [$p] demo $a/$b $t"; echo "$c" | sed 's/^/      /'
done
