#!/bin/bash
# run.sh check PROPERTY [quick|thorough] | replay FILE
# Builds the driver and runs it. Exit status: 0 the property held, 1 violation,
# anything else is an error of the check.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-trimpath -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export VS_DIR="${VS_DIR:-$here}" VS_ROOT="$here"
bin=$(mktemp -d /tmp/vsbin.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
(cd "$here/sim" && go build -o "$bin/vs" ./cmd/vs) || { echo "run.sh: cannot build the driver" >&2; exit 3; }
if [ "$1" = setup ]; then echo "driver builds"; exit 0; fi
"$bin/vs" "$@"
