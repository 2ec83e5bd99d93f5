#!/bin/bash
# catch.sh SEED [CHECK] [TIER]: apply a planted bug to /repo, run the check of its property, undo it.
d=/verif/seeded/$1; c=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 2
s=$(date +%s); bash /verif/run.sh $c ${3:-quick} >/tmp/catch.out 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$1 $c exit=$r ($(( $(date +%s)-s ))s) $(grep -c '^VIOLATION' /tmp/catch.out) violations: $(grep -m1 'violation key' /tmp/catch.out | cut -c1-160)"
