#!/bin/bash
# check.sh ID [quick|thorough]   decide one property for /repo's working tree
# check.sh -replay FILE          run one saved case again
# Exit 0: it held. 1: violated (a VIOLATION line). Anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTELEMETRY=off
mkdir -p "$here/.bin" "$here/evidence" "$here/replays"
bin="$here/.bin/check.$$"
trap 'rm -f "$bin"' EXIT
race=
case "$*" in
C12*|*C12-*) race=-race; export CGO_ENABLED=1 ;; # the race detector is part of this oracle
esac
(cd "$here/harness" && go build -buildvcs=false $race -o "$bin" ./cmd/check) || { echo "check.sh: the harness does not build against /repo" >&2; exit 3; }
if [ "$1" = "-replay" ]; then
	"$bin" -verif "$here" -repo /repo -replay "$2"
	exit $?
fi
"$bin" -verif "$here" -repo /repo -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
rc=$?
exit $rc
