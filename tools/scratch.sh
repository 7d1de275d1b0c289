#!/bin/bash
# tools/scratch.sh PATCH CHECK...: runs checks against a scratch clone of /repo with PATCH applied
# (in a private directory, /repo stays as it is). Prints one line per check.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
patch=$(realpath "$1"); shift
t=$(mktemp -d /tmp/scr.XXXXXX); trap 'rm -rf "$t"' EXIT
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
git clone -q /repo $t/repo && git -C $t/repo apply "$patch" || exit 2
cp -r $ROOT/harness $t/harness; cp $ROOT/check.sh $ROOT/known-findings.txt $t/
sed -i "s#=> */repo#=> $t/repo#" $t/harness/go.mod
for q in "$@"; do
  timeout 900 bash $t/check.sh run $q quick >$t/o.txt 2>&1; rc=$?
  echo "$q rc $rc $(grep -m1 '^case\|ERROR\|panic' $t/o.txt | cut -c1-200)"
  [ $rc = 2 ] && tail -5 $t/o.txt
done
exit 0
