#!/bin/bash
# tools/catch.sh [-a] [ID...]: apply each planted bug to /repo, run its property's check (-a: all checks), undo.
cd "$(dirname "$0")/.."
all=; [ "$1" = -a ] && { all=1; shift; }
ids=${*:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  [ -n "$all" ] && list=$(seq -f T%02g 1 24) || list=$p
  res=
  for q in $list; do
    timeout 900 bash check.sh run $q quick >/tmp/catch.out 2>&1; rc=$?
    n=$(grep -c "^VIOLATION property=$q " /tmp/catch.out)
    if [ $rc = 1 ] && [ $n -gt 0 ]; then res="$res $q"; elif [ $rc != 0 ]; then res="$res $q(rc$rc)"; fi
    [ $q = $p ] && first=$(grep -m1 '^case' /tmp/catch.out | cut -c1-160)
  done
  git -C /repo checkout -q -- .
  case " $res " in *" $p "*) v=CAUGHT;; *) v=MISSED;; esac
  echo "$v $id ($p):$res | $first"
done
rm -f out/replay/*
