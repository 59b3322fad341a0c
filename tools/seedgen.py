"""mk(id, prop, needs, breaks, [(file, old, new)...], main_go, stubs=False): writes /verif/seeded/<id>/ from edits to /repo."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: the property holds in main.go's scenario
D=$(cd "$(dirname "$0")" && pwd) || exit 9
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
W=$(mktemp -d) || exit 9
trap 'rm -rf "$W"' EXIT
[ -e /repo/go.mod ] || cp /opt/vp/gomod/go.mod /opt/vp/gomod/go.sum /repo/
cp "$D"/*.go "$W/" && sed 's#^module .*#module demo#' /repo/go.mod > "$W/go.mod" && cp /repo/go.sum "$W/go.sum" || exit 9
{
    echo 'require gitlab.com/alephledger/threshold-ecdsa v0.0.0'
    echo 'replace gitlab.com/alephledger/threshold-ecdsa => /repo'
    if [ -d "$D/stubs" ]; then
        for m in gitlab.com/alephledger/core-go:core-go github.com/binance-chain/tss-lib:tss-lib github.com/rs/zerolog:zerolog; do
            echo "require ${m%:*} v0.0.0"
            echo "replace ${m%:*} => $D/stubs/${m#*:}"
        done
    fi
} >> "$W/go.mod"
cd "$W" && go build FLAGS -o demo . || exit 8
BUILDCMDStimeout 200 ./demo
'''
def mk(id, prop, needs, breaks, edits, main, stubs=False, flags="", cmds=()):
    d = os.path.join(HERE, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        for f, old, new in edits:
            p = os.path.join(w, "repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
            if f.endswith(".go"):
                subprocess.check_call(["gofmt", "-l", "-e", p], stdout=subprocess.DEVNULL)
        diff = subprocess.run(["git", "diff"], cwd=w + "/repo", capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(d + "/main.go", "w").write(main.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO.replace("FLAGS ", flags + " " if flags else "").replace("BUILDCMDS", "".join("go build -o %s gitlab.com/alephledger/threshold-ecdsa/cmd/%s || exit 8\n" % (c, c) for c in cmds)))
    os.chmod(d + "/demo.sh", 0o755)
    if stubs:
        shutil.copytree(os.path.join(HERE, "stubs"), d + "/stubs")
        shutil.copy(os.path.join(HERE, "tools", "parties.go.txt"), d + "/parties.go")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
