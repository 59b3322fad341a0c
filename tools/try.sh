#!/bin/bash
# tools/try.sh [-R] PATCH|COMMIT PROP...: runs checks against a copy of /repo with a patch applied (or, with -R, a commit reverted).
HERE=$(cd "$(dirname "$0")/.." && pwd)
REV=; [ "$1" = -R ] && { REV=1; shift; }
PATCH=$1; shift
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp "$HERE/known_findings.txt" "$W/"
cd "$W/repo" || exit 2
if [ -n "$REV" ]; then git show "$PATCH" > "$W/p"; git apply -R "$W/p" || git -c user.name=x -c user.email=x@x revert -n "$PATCH" || { echo "CANNOT APPLY $PATCH"; exit 2; }
else git apply "$(cd "$HERE" && realpath "$PATCH")" || { echo "CANNOT APPLY $PATCH"; exit 2; }; fi
for p in "$@"; do
    VMON_REPO=$W/repo VMON_OUT=$W timeout 900 bash "$HERE/check.sh" "$p" > "$W/log" 2>&1; rc=$?
    echo "$PATCH $p rc=$rc: $(grep -E '^-- key' "$W/log" | tr '\n' ' ')"
    [ -n "$V" ] && tail -${V} "$W/log"
done
