#!/bin/bash
# rtest.sh [DIR]: build and test the repository at DIR (default /repo); says which stable tests do not pass.
cd "${1:-/repo}" || exit 2
bash /opt/vp/build.sh >/tmp/rtest-build.log 2>&1 || { tail -20 /tmp/rtest-build.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/rtest.json >/tmp/rtest.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/rtest.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[x for x in b['stable'] if x not in set(t['passed'])]
print('stable not passing:',len(bad),bad[:20])
P
