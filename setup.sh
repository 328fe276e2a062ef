#!/bin/bash
# Checks that the harness and the commands build (the checks build for
# themselves) and warms Go's build cache.
set -eu
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false CGO_ENABLED=0
W=$(mktemp -d /tmp/verif.XXXXXXXX)
trap 'rm -rf "$W"' EXIT
V=$PWD
for ID in C02 C12 C20 C28; do
	. ./build.sh
done
