#!/bin/bash
# usage: check.sh ID   (exit 0 held, 1 VIOLATION, anything else: no verdict)
# Builds the monitors together with the code under test from /repo's working
# tree and runs the monitor of one property. Tier and seed come from
# VERIF_TIER and VERIF_SEED.
set -u
ID=$1
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off VMON_ROOT=$ROOT
W=$(mktemp -d "${TMPDIR:-/tmp}/vmon-build-XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
cp "$ROOT/harness/go.mod" "$ROOT/harness/go.sum" "$W/" || exit 2
cd "$ROOT/harness" || exit 2
build() { # output, package, flags...
	local out=$1 pkg=$2; shift 2
	go build -modfile="$W/go.mod" "$@" -o "$out" "$pkg" >"$W/log" 2>&1 && return 0
	echo "check.sh: build of $pkg failed" >&2; cat "$W/log" >&2; return 1
}
RACE=
case $ID in C04|C05) RACE=-race ;; esac
case $ID in C03|C3[0-4]|setup)
	(cd /repo && go build -buildvcs=false -ldflags "-X main.version=9.9.9" -o "$W/html2markdown" ./cli/html2markdown >"$W/log" 2>&1) || { echo "check.sh: build of the command failed" >&2; cat "$W/log" >&2; exit 2; }
	export VMON_CLI=$W/html2markdown ;;
esac
if [ "$ID" = setup ]; then
	build "$W/vmon" ./vmon && build "$W/vmon-race" ./vmon -race || exit 2
	exit 0
fi
build "$W/vmon" ./vmon $RACE || exit 2
"$W/vmon" check "$ID"
