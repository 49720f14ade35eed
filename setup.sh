#!/bin/bash
# Warms the build cache: builds the check driver and the checks of every property once.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GONOSUMDB=* GOFLAGS=-buildvcs=false
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOWORK=${VH_WORK:-$here/harness/go.work}
cd "$here/harness" || exit 1
go version && go build -o /dev/null ./cmd/vrun
