#!/bin/bash
# replay.sh ID...: runs replay drivers by hand against /repo (or $REPO) as an unprivileged user.
cd /verif; . ./env.sh; gv_mod
R=${REPO:-/repo}
for id in "$@"; do
 for f in replay/*/$(echo $id | tr A-Z a-z)_verif_test.go; do
  d=$(dirname $f); p=$(basename $d); T=$(mktemp -d)
  echo "{\"Replace\":{\"$R/$p/$(basename $f)\":\"/verif/$f\",\"$R/$p/helper_verif_test.go\":\"/verif/$d/helper_verif_test.go\"}}" > $T/ov.json
  s=$(date +%s)
  (cd $R && go test $RACE -c -overlay $T/ov.json -o $T/drv ./$p) && { mkdir $T/s; chmod 755 $T; chown nobody $T/s; (cd $T/s; TMPDIR=$T/s setpriv --reuid=65534 --regid=65534 --clear-groups $T/drv -test.run "^TestReplay$id\$" -test.timeout 240s 2>&1 | tail -${N:-12} | cut -c1-600); }
  echo "$id $p $(( $(date +%s)-s ))s"; rm -rf "$T"
 done
done
