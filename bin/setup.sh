#!/bin/bash
# Builds the harness once, with and without the race detector, so that the
# checks start from a warm build cache.
set -u
cd "$(dirname "$0")/.." || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p .build evidence
cd harness || exit 3
CGO_ENABLED=0 go build -o ../.build/setup ./cmd/vrun && CGO_ENABLED=1 go build -race -o ../.build/setup ./cmd/vrun
rc=$?
rm -f ../.build/setup
exit $rc
