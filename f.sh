#!/bin/bash
# one function, one property: ./f.sh PROP FUNC
export GV_JUST=${JUST-1}; cd /verif; timeout ${T:-240} ./t.sh -loops -only $2 check $1 > /tmp/f.$1.$2.log 2>&1
grep -E "drop contract|not true at entry|cannot evaluate|unsupported|outside|error" /tmp/f.$1.$2.log | cut -c1-300 | sort | uniq -c | sort -rn | head -${N:-8}
grep -E "^FAILED" /tmp/f.$1.$2.log | sed -E 's/\(cacher[^)]*\)//' | sort | uniq -c| cut -c1-${W:-150} | head -${M:-16}
tail -2 /tmp/f.$1.$2.log | cut -c1-300
