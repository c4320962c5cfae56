#!/bin/bash
# every planted bug: builds and passes the stable tests?
for id in ${@:-$(ls /verif/seeded)}; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/bl 2>&1; a=$?
  bash /opt/vp/test.sh /tmp/t.json >/tmp/tl 2>&1
  git -C /repo checkout -- .
  python3 - $id $a <<'P'
import json,sys
t=json.load(open('/tmp/t.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=t.get('passed') or [k for k,v in t.items() if v in('pass','ok','passed',True)]
print(sys.argv[1], 'build', sys.argv[2], 'missing', sorted(b-set(p))[:4])
P
done
