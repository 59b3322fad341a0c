#!/bin/bash
# Builds the monitors once (warms the build cache) and runs the reference model's own tests.
HERE=$(cd "$(dirname "$0")" && pwd) || exit 1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=1
if [ ! -e /repo/go.mod ]; then
    cp /opt/vp/gomod/go.mod /opt/vp/gomod/go.sum /repo/ || exit 1
fi
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
cp "$HERE/harness/go.mod" "$HERE/harness/go.sum" "$W/" || exit 1
cd "$HERE/harness" || exit 1
go test -modfile "$W/go.mod" ./ref || exit 1
for b in core rounds full; do
    [ -e "$b/main.go" ] || continue
    go build -modfile "$W/go.mod" -o "$W/$b" "./$b" || exit 1
done
echo ok
