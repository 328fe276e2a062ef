#!/bin/bash
# run.sh PROPERTY [harness flags]: builds the harness, the commands and the
# packages under test from /repo's working tree and decides one property.
set -u
ID=${1:?usage: run.sh PROPERTY}; shift
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:$PATH
export GORACE="halt_on_error=1"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false CGO_ENABLED=0
W=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
. "$V/build.sh" "$ID" || { echo "BUILD FAILED"; exit 2; }
"$W/vh" -p "$ID" -work "$W" -verif "$V" "$@"
