#!/bin/bash
# bash check.sh PROPERTY: builds the monitor of one property against /repo's working tree and runs it.
# VERIF_TIER is quick (default) or thorough, VERIF_SEED the seed (default 1).
P=${1:?usage: check.sh PROPERTY}
HERE=$(cd "$(dirname "$0")" && pwd) || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=1
# only for trying out the monitors during development: another tree, another place for the output
REPO=${VMON_REPO:-/repo} OUT=${VMON_OUT:-$HERE}
TIER=${VERIF_TIER:-quick} SEED=${VERIF_SEED:-1}
case $P in
C01 | C02 | C03 | C04 | C05 | C06 | C07 | C09) BIN=core ;;
C20 | C21 | C30) BIN=rounds ;;
*) BIN=full ;;
esac
case $P in C02 | C22) RACE=1 ;; *) RACE= ;; esac
# the project has no go.mod of its own: put the sandbox's back if it went
if [ ! -e "$REPO/go.mod" ]; then
    cp /opt/vp/gomod/go.mod /opt/vp/gomod/go.sum "$REPO/" || exit 2
fi
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cp "$HERE/harness/go.mod" "$W/go.mod" && cp "$HERE/harness/go.sum" "$W/go.sum" || exit 2
sed -i "s#=> /repo\$#=> $REPO#; s#=> \.\./stubs/#=> $HERE/stubs/#" "$W/go.mod"
cd "$HERE/harness" || exit 2
go build -modfile "$W/go.mod" -o "$W/bin" "./$BIN" || { echo "ERROR: $P: the monitor does not build against /repo"; exit 2; }
ARGS=()
if [ -n "$RACE" ]; then
    go build -modfile "$W/go.mod" -race -o "$W/bin.race" "./$BIN" || { echo "ERROR: $P: no race-detector build"; exit 2; }
    ARGS=(-racebin "$W/bin.race")
fi
case $P in C26 | C27 | C28)
    for cmd in gen_keys tecdsa; do
        go build -modfile "$W/go.mod" -o "$W/$cmd" "gitlab.com/alephledger/threshold-ecdsa/cmd/$cmd" || { echo "ERROR: $P: cmd/$cmd does not build"; exit 2; }
    done
    export VMON_CMDS=$W ;;
esac
cd "$HERE" || exit 2
TMPDIR=$W "$W/bin" -prop "$P" -tier "$TIER" -seed "$SEED" -verif "$OUT" "${ARGS[@]}"
