#!/bin/bash
# Builds the instrumenter and the simulator once, which warms the compiler's cache.
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
W=$(mktemp -d /tmp/ringosim.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
set -e
(cd "$V/tools/instr" && go build -o "$W/instr" .)
"$W/instr" -repo /repo -sim "$V/sim" -out "$W/o" >/dev/null
cd /repo && go build -overlay "$W/o/overlay.json" -o "$W/sim" ./buckler/ringosim
