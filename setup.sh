#!/bin/bash
# Builds the harness once with and without the race detector, so that the checks start from a
# warm build cache.
here=$(cd "$(dirname "$0")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTELEMETRY=off
mkdir -p "$here/.bin" "$here/evidence" "$here/replays"
cd "$here/harness" || exit 1
go build -buildvcs=false -o "$here/.bin/setup" ./cmd/check || exit 1
"$here/.bin/setup" -list >/dev/null || exit 1
CGO_ENABLED=1 go build -buildvcs=false -race -o "$here/.bin/setup" ./cmd/check || exit 1
rm -f "$here/.bin/setup"
