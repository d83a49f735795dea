#!/bin/bash
# run.sh PROPERTY [--replay FILE]: builds the check of one property from /repo's working tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d /tmp/gevulotverif.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export VERIF_WORK=$work
cp "$here/harness/go.mod" "$work/driver.mod" && cp "$here/harness/go.sum" "$work/driver.sum" || exit 2
(cd "$here/harness" && go build -modfile="$work/driver.mod" -o "$work/driver" ./cmd/driver) >&2 || { echo "CHECK-ERROR: the driver does not build" >&2; exit 2; }
"$work/driver" "$@"
exit $?
