#!/bin/bash
# reg.sh cNN [LEVEL]: register a check module in harness/src/main.rs
l=$1; u=${l^^}; lv=${2:-MC}
sed -i "s/^mod engine;/mod $l;\nmod engine;/; s|^    \]\$|        Check { id: \"$u\", level: $lv, run: $l::run, rule: $l::RULE },\n    ]|" /verif/harness/src/main.rs
