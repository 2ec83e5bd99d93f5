#!/bin/bash
# c.sh ID [lines]: rebuild, run a check, show few violations (aid)
cd /verif; bash run.sh setup 2>&1 | head -60; grep -A9 "^warning: unused" build/cargo.log | head -30
timeout ${T:-600} harness/target/debug/bmc $1 ${TIER:-quick} > /tmp/$1.out 2>&1
grep "violation key" /tmp/$1.out | cut -c1-150 | head -40
grep -A3 "violation key" /tmp/$1.out | cut -c1-${BMC_LEN:-700} | head -${2:-8}; grep -v "^VIOLATION\|^ \|violation key" /tmp/$1.out | tail -3 | cut -c1-300
