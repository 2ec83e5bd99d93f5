#!/bin/bash
# seedtest.sh ID [notests]: demo passes on the clean scratch copy, fails with the patch, and the patched copy passes the stable tests.
id=$1; d=/verif/seeded/$id; cd /tmp/plant/repo || exit 2
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
s=$(date +%s); bash $d/demo.sh >/tmp/plant/demo0.log 2>&1; a=$?; e=$(( $(date +%s)-s ))
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
bash $d/demo.sh >/tmp/plant/demo1.log 2>&1; b=$?
echo "$id: clean=$a patched=$b (${e}s)"; [ $a != 0 ] && tail -8 /tmp/plant/demo0.log; tail -3 /tmp/plant/demo1.log
[ "$2" = notests ] || bash /verif/tools/planttest.sh
git checkout -q -- .
