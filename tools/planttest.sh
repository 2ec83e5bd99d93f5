#!/bin/bash
# planttest.sh: build and test the scratch copy /tmp/plant/repo with the scratch copy of the test driver.
cd /tmp/plant/repo || exit 2
bash /tmp/plant/vp/build.sh >/tmp/plant/build.log 2>&1 || { grep -E "^error" -A6 /tmp/plant/build.log | head -30; echo BUILD FAILED; exit 1; }
bash /tmp/plant/vp/test.sh /tmp/plant/t.json >/tmp/plant/t.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/plant/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[x for x in b['stable'] if x not in set(t['passed'])]
print('stable not passing:',len(bad),bad[:20])
P
