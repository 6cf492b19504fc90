#!/bin/bash
# Builds the simulation binary from /repo's current working tree.
# usage: build.sh <build dir> ; leaves <build dir>/simbin
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
B=$1
REPO=${VERIF_REPO:-/repo}
export GOENV=off GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1 CGO_ENABLED=0
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$B"
rm -rf "${B:?}/gen" "${B:?}/simbin"
mkdir -p "$B/gen/verifsim" "$B/mod"
cp "$REPO/go.mod" "$B/mod/gofer.mod"
cp "$here/sim/go.sum" "$B/mod/gofer.sum"
cp "$here/sim/go.mod" "$here/sim/go.sum" "$B/gen/"
cp -r "$here/sim/sim" "$here/sim/shadow" "$here/sim/scen" "$here/sim/cmd" "$B/gen/verifsim/"
(cd "$here/tools/simgen" && go build -o "$B/simgen" .)
GOFLAGS=-mod=mod "$B/simgen" -repo "$REPO" -out "$B/gen" -modfile "$B/mod/gofer.mod"
(cd "$B/gen" && go build -mod=mod -o "$B/simbin" ./verifsim/cmd)
