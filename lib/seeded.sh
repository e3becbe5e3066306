#!/bin/bash
# Runs the quick check of each planted bug's property (arguments: names; default all) on a scratch copy with
# the bug; with DEMO=1 also the demonstration with and without it.
cd "$(dirname "$0")/.."; V=$PWD
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c 'import json,sys; print(json.load(open("seeded/"+sys.argv[1]+"/meta.json"))["property"])' $b)
  T=$(mktemp -d /tmp/seeded-XXXXXX); cp -a /repo $T/repo
  d=""
  if [ -n "$DEMO" ]; then (cd $T/repo; bash $V/seeded/$b/demo.sh) >$T/d1 2>&1; d="demo $?"; fi
  git -C $T/repo apply $V/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  if [ -n "$DEMO" ]; then (cd $T/repo; bash $V/seeded/$b/demo.sh) >$T/d2 2>&1; d="$d/$?"
    (cd $T/repo; go test -vet=off ./... >$T/t 2>&1); d="$d breaks$(grep -oE '^ *--- FAIL: [^ ]+' $T/t | sed 's/.*: //' | while read t; do grep -q "/$t\"" /opt/vp/BASELINE.json && echo -n " $t"; done);"; fi
  AXV_REPO=$T/repo ./check $p >$T/out 2>&1; r=$?
  echo "$b $p exit $r $(grep -c ^VIOLATION $T/out) $d $(grep -v ^VIOLATION $T/out | head -1 | cut -c1-160)"
  [ "${T#/tmp/seeded-}" != "$T" ] && rm -rf "$T"
done
