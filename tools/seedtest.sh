#!/bin/bash
# seedtest.sh ID...: confirms that a planted change applies, builds, passes the stable tests, and that its
# demonstration fails with it and passes without it.  Works on /repo and undoes everything.
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo checkout -q -- . ; git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id: does not build"; grep -m3 error: /tmp/seed.log; git -C /repo checkout -q -- .; continue; }
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
base=b.get('passed') or b.get('stable') or b
print(len([x for x in base if x not in r['passed']]))
P
)
  cp -a $d /tmp/seeddemo; rm -f /tmp/seeddemo/patch.diff /tmp/seeddemo/meta.json
  ( cd /repo && timeout 300 bash /tmp/seeddemo/demo.sh ) >/tmp/seed.bad 2>&1; bad=$?
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1
  ( cd /repo && timeout 300 bash /tmp/seeddemo/demo.sh ) >/tmp/seed.good 2>&1; good=$?
  rm -rf /tmp/seeddemo
  echo "$id: stable tests lost=$t demo with=$bad without=$good $( [ $t = 0 ] && [ $bad != 0 ] && [ $good = 0 ] && echo OK || echo BAD)"
  git -C /repo status --short
done
