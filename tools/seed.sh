#!/bin/bash
# tools/seed.sh ID...: confirms planted bugs in a scratch copy: applies, changes original lines, builds, passes the
# stable tests, demo passes without and fails with the patch. With CHECK=1 also runs the check of its property.
HERE=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
    D=$HERE/seeded/$ID
    W=$(mktemp -d)
    cp -a /repo "$W/repo"; cp -a "$D" "$W/demo"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
    # official scripts and the demo say /repo: run them in a namespace where the copy is there
    cat > "$W/in.sh" <<X
mount --bind $W/repo /repo || exit 9
cd /repo
bash $W/demo/demo.sh > $W/demo0.log 2>&1; echo "demo clean rc=\$?"
git apply $D/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $W/build.log 2>&1; echo "build rc=\$?"
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
python3 - <<Y
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/out.json'))
p=o.get('passed') or o.get('pass') or []
print('stable missing:', sorted(b-set(p)) or 'none')
Y
timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; echo "demo patched rc=\$?"
git status --short | grep -v '^ M' 
X
    echo "== $ID ($(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"))"
    unshare -m bash "$W/in.sh"
    [ -n "$V" ] && { tail -5 "$W/demo0.log"; echo --; tail -8 "$W/demo1.log"; cat "$W/build.log"; }
    # blame of removed lines
    git -C /repo diff --quiet || echo "REPO DIRTY"
    python3 - "$D/patch.diff" <<'Y'
import re,subprocess,sys
f=None;old=0;orig=0;new=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip().split('\t')[0]
    elif l.startswith('@@'): old=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','-C','/repo','blame','-l','-s','-L','%d,%d'%(old,old),'HEAD','--',f],capture_output=True,text=True).stdout
        if b.startswith('^') or b.startswith('0165c2b'): orig+=1
        else: new+=1
        old+=1
    elif l.startswith(' '): old+=1
print('removed lines: original',orig,'ours',new, '' if orig else '*** NO ORIGINAL LINE')
Y
    if [ -n "$CHECK" ]; then bash "$HERE/tools/try.sh" "$D/patch.diff" $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); fi
    rm -rf "$W"
done
