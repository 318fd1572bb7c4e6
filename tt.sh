#!/bin/bash
# concise run
cd /verif; ./t.sh -loops "$@" > /tmp/tt.log 2>&1
grep -E "drop contract|not true at entry|cannot evaluate|unsupported|outside" /tmp/tt.log | cut -c1-330 | sort | uniq -c | sort -rn | head -${N:-14}
grep -E "^FAILED" -A2 /tmp/tt.log | cut -c1-${W:-160} | head -${M:-16}
tail -3 /tmp/tt.log | cut -c1-300
