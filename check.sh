#!/bin/bash
# bash /verif/check.sh PROPERTY [-tier quick|thorough] [-replay FILE] [-v]
# Builds the check of PROPERTY from /repo's working tree and runs it.
prop=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GO111MODULE=on GONOSUMDB=* GOFLAGS=-buildvcs=false
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOWORK=${VH_WORK:-$here/harness/go.work}
export VH_VERIF=$here
VH_SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXXXX") || exit 2
export VH_SCRATCH
trap 'rm -rf "$VH_SCRATCH"' EXIT
cd "$here/harness" || exit 2
go build -o "$VH_SCRATCH/vrun" ./cmd/vrun || exit 2
"$VH_SCRATCH/vrun" -prop "$prop" "$@"
