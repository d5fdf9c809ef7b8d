#!/bin/bash
# bash /verif/check.sh <property> quick|thorough
# bash /verif/check.sh <property> --replay FILE
# Builds the simulator from /repo's working tree in a scratch directory and runs
# the simulations that decide one property.
set -u
ID=${1:?usage: check.sh PROPERTY quick|thorough|--replay FILE}
TIER=${2:-quick}
START=$(date +%s%N)
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
W=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
# a build cache of our own: nothing outside the scratch directory is written,
# except when the caller shares one to save time
export GOCACHE=${VERIF_GOCACHE:-$W/gocache}
unset GOGC GODEBUG GORACE GOEXPERIMENT CGO_ENABLED
cp -r "$VERIF/sim" "$W/sim" || exit 2
rm -rf "$W/sim/replays"
cd "$W/sim" || exit 2
sed -i "s#=> /repo#=> $REPO#" go.mod || exit 2
fail() { echo "error of the check: $1" >&2; exit 2; }
go build -o "$W/instr" ./cmd/instr || fail "the instrumenter does not build"
RACE=-
case " C09 C10 C11 C16 C24 " in *" $ID "*) RACE=$W/simrun-race;; esac
build() {
	rm -rf "$W/ov"
	"$W/instr" "$REPO" "$W/ov" "$W/sim" $1 > "$W/log" 2>&1 || return 1
	if [ "$RACE" != - ]; then
		CGO_ENABLED=1 go build -race -overlay "$W/ov/overlay.json" -o "$RACE" ./cmd/simrun > "$W/race.log" 2>&1 &
	fi
	go build -overlay "$W/ov/overlay.json" -o "$W/simrun" ./cmd/simrun > "$W/log" 2>&1
	local rc=$?
	if [ "$RACE" != - ]; then
		wait $! || { cat "$W/race.log" >> "$W/log"; rc=1; }
	fi
	return $rc
}
# Level 3 counts work and yields before every statement; the lower levels (no
# costs, no yields, nothing) serve code whose rewritten form does not compile.
for LEVEL in 3 2 1 0; do
	build $LEVEL && break
	cat "$W/log" >&2
	[ $LEVEL = 0 ] && fail "the simulator does not build with $REPO"
	echo "warning: no build with instrumentation level $LEVEL" >&2
done
mkdir -p "$W/run"
export VERIF_DICT=$W/ov/dict.json
if [ "$TIER" = --replay ]; then
	F=$(realpath "${3:?replay file}")
	"$W/simrun" replay "$F" "$W/simrun" "$RACE" "$VERIF" "$W/run"
	exit $?
fi
"$W/simrun" drive "$ID" "$TIER" "${VERIF_SEED:-1}" "$W/simrun" "$RACE" "$VERIF" "$W/run" "$W/ov/sites.json" "$START"
