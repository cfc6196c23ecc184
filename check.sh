#!/bin/bash
# usage: check.sh <ID>            run the check of one property (VERIF_SEED, VERIF_TIER)
#        check.sh --replay FILE   run one saved case again
#        check.sh --build         build both variants of the harness (setup)
# The harness is built from /repo's current working tree on every run.
export HOME="${HOME:-/root}" PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GONOSUMDB='*' GONOSUMCHECK=1 GOWORK=off
unset GOTRACEBACK GODEBUG
verif=$(cd "$(dirname "$0")" && pwd) || exit 2
bin=$(mktemp -d) || exit 2
trap 'rm -rf -- "$bin"' EXIT

build() { # race?
  if [ "$1" = true ]; then
    (cd "$verif/harness" && go build -race -gcflags=all=-d=checkptr=0 -o "$bin/harness" .)
  else
    (cd "$verif/harness" && go build -o "$bin/harness" .)
  fi
}
# the debug server, which T06 runs as a process of its own
server() { (cd "$verif/harness" && go build -race -o "$bin/mapdebugger" github.com/akhenakh/oureadb/cmd/mapdebugger); }
needs() { # ID
  build "$(race "$1")" || return 1
  case "$1" in T06) server ;; esac
}
# properties that are decided under the race detector
race() { case "$1" in K11|X12|G10) echo true ;; *) echo false ;; esac; }

case "$1" in
--build)
  build false && build true && server
  exit $?
  ;;
--replay)
  id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
  needs "$id" >&2 || exit 2
  "$bin/harness" replay "$2"
  exit $?
  ;;
esac
if ! needs "$1" >&2; then
  echo "CHECK ERROR: the harness does not build" >&2
  exit 2
fi
export GOMEMLIMIT=3GiB
"$bin/harness" run -property "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$verif"
exit $?
