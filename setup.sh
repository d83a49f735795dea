#!/bin/bash
# Warms the Go build cache (also for the race detector); the checks work without it, only slower.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=1
work=$(mktemp -d /tmp/gevulotverif.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$work/go.mod" && cp "$here/harness/go.sum" "$work/go.sum" || exit 2
cd "$here/harness" || exit 2
go build -modfile="$work/go.mod" -o "$work/driver" ./cmd/driver || exit 2
go build -modfile="$work/go.mod" -o "$work/worker" ./cmd/worker || exit 2
go build -race -modfile="$work/go.mod" -o "$work/worker" ./cmd/worker || exit 2
