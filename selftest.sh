#!/bin/bash
# Unit tests of the simulator, models and generators (not of go-syslog).
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
W=$(mktemp -d /tmp/verif-self.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export GOCACHE=${VERIF_GOCACHE:-$W/gocache}
cp -r "$V/sim" "$W/sim" && cd "$W/sim" && go build -o "$W/instr" ./cmd/instr && "$W/instr" /repo "$W/ov" "$W/sim" 3 && go vet ./... && go build -overlay "$W/ov/overlay.json" -o "$W/simrun" ./cmd/simrun && for p in C01 C02 C13 C17; do
	"$W/simrun" batch $p 1 0 200 0 "$W/pf" 0 > "$W/out.json" || exit 1
done
