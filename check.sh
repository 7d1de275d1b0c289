#!/bin/bash
# bash check.sh run ID [quick|thorough] | replay FILE | build
# Builds the harness from /repo's working tree and runs one check.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GODEBUG=
OUT=$ROOT/out
mkdir -p "$OUT/bin" "$ROOT/evidence"
RACE_IDS=" T15 T26 "
build() { # build [race]
  local b=$OUT/bin/harness flags=
  if [ "${1:-}" = race ]; then b=$b-race flags=-race; fi
  (cd "$ROOT/harness" && go build $flags -o "$b.$$" . && mv -f "$b.$$" "$b") || { echo "ERROR: the harness does not build against /repo" >&2; exit 2; }
  BIN=$b
}
sel() { case "$RACE_IDS" in *" $1 "*) build race; export MON_RACE=1;; *) build;; esac; }
case "${1:-}" in
  build) build; build race ;;
  run)
    sel "$2"
    exec "$BIN" run "$2" "${3:-${VERIF_TIER:-quick}}" ;;
  replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    sel "$id"
    exec "$BIN" replay "$2" ;;
  *) echo "usage: check.sh run ID [quick|thorough] | replay FILE | build"; exit 2 ;;
esac
