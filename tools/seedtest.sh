#!/bin/bash
# tools/seedtest.sh <id> [nobuild]: confirms a planted bug in a scratch copy of /repo and runs its property's check against it.
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$ID; W=/tmp/seedtest-$ID
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a "${SRC:-/repo}" "$W"; cd "$W" || exit 3
bash "$S/demo.sh" >/dev/null 2>"$W.err"; A=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 1; }
bash "$S/demo.sh" >>"$W.err" 2>&1; B=$?
cd "$V"; REPO=$W VERIF_SEED=${VERIF_SEED:-1} bash check.sh "$PROP" quick >"$W.log" 2>&1; C=$?
echo "$ID $PROP demo-unchanged=$A demo-patched=$B check=$C $(grep -m1 -A1 '^FAIL' "$W.log" | tr '\n' ' ' | cut -c1-200)"
rm -rf "$W"
