#!/bin/bash
# Runs the check of one property against /repo's working tree.
# usage: bin/check.sh PROPERTY [-case N]
set -u
cd "$(dirname "$0")/.." || exit 3
root=$PWD
prop=$1
shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$root/.build" "$root/evidence" || exit 3
if ! mkdir -p "${GOCACHE:-/root/.cache/go-build}" 2>/dev/null || ! [ -w "${GOCACHE:-/root/.cache/go-build}" ]; then
	export GOCACHE=$root/.build/gocache
fi
flags=()
name=vrun
case $prop in
C07|C11)
	# the race detector also turns on the pointer checks of package unsafe
	export CGO_ENABLED=1
	export GORACE="halt_on_error=1 exitcode=66 history_size=3"
	flags=(-race)
	name=vrun-race
	;;
*) export CGO_ENABLED=0 ;;
esac
bin=$root/.build/$name-$$
trap 'rm -f "$bin"' EXIT
if ! (cd harness && go build "${flags[@]}" -o "$bin" ./cmd/vrun) >"$root/.build/build-$prop.log" 2>&1; then
	echo "cannot build the harness against /repo:"
	cat "$root/.build/build-$prop.log"
	exit 3
fi
export GOTRACEBACK=single
"$bin" -prop "$prop" -root "$root" "$@"
