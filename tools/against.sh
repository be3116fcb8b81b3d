#!/bin/bash
# against.sh DIR [PROP...]: runs checks against another tree (a scratch copy of
# /repo), from a copy of /verif. For development only.
set -u
tree=$1; shift
w=$(mktemp -d /tmp/against.XXXXXX)
mkdir $w/verif; cp -r /verif/harness /verif/env.sh /verif/known_findings.txt $w/verif/
sed -i "s|=> /repo|=> $tree|" $w/verif/harness/go.mod
. /verif/env.sh
cd $w/verif/harness
for p in "$@"; do
  f=; [ $p = C20 ] && f=-race
  go build $f -o $w/qv$f . || { echo BUILD-FAIL; break; }
  timeout 900 $w/qv$f check -prop $p -tier ${TIER:-quick} -seed ${VERIF_SEED:-1} -root $w/verif > $w/out 2>&1; rc=$?
  echo "$p rc=$rc"; grep -v '^case:' $w/out | cut -c1-${COLS:-400}
done
rm -rf $w
