#!/bin/bash
# check.sh <property> <quick|thorough>      run one check
# check.sh --replay <property> <file>       run a saved failing case again
# Builds the property's harness from /repo's working tree (or $REPO), runs it, writes evidence/<property>.json.
# Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: it did not.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
VERIF=$PWD
REPO=${REPO:-/repo}
REPLAY=
if [ "$1" = --replay ]; then REPLAY=$3; shift; fi
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
SRC=$(grep -lE "\"$ID\"" harness/*.cc | head -1)
[ -n "$SRC" ] || { echo "no harness for $ID" >&2; exit 3; }
NAME=$(basename "$SRC" .cc)
FLAGS=$(sed -n 's,^// FLAGS: ,,p' "$SRC")
SAN=$(sed -n 's,^// SAN: ,,p' "$SRC"); SAN=${SAN:-address}
LIBS=$(sed -n 's,^// LIBS: ,,p' "$SRC")
# which repository files decide the binary: everything the harness may include
KEY=$( { cat "$SRC" harness/*.hh engine/pbt.hh harness/gen/* ; echo "$FLAGS $LIBS $REPO"; find "$REPO/libs" "$REPO/addons" -type f \( -name '*.hh' -o -name '*.h' -o -name '*.cc' \) -print0 | sort -z | xargs -0 sha1sum; } | sha1sum | cut -c1-16)
BUILD=$VERIF/build
mkdir -p "$BUILD" "$VERIF/evidence" "$VERIF/out"
BIN=$BUILD/$NAME-$KEY
if [ ! -x "$BIN" ]; then
  find "$BUILD" -maxdepth 1 -name "$NAME-*" -mmin +90 -delete
  T0=$(date +%s)
  g++ -std=c++17 -O0 -g1 -w -fsanitize=$SAN -D_GLIBCXX_ASSERTIONS $FLAGS \
      -DCMDR_ENABLE_ASSERTIONS=1 -DENABLE_ASSERTS=1 -DCMDR_ENABLE_PRECONDITION_CHECKS=1 \
      -Iharness/gen -Iengine -Iharness -I"$REPO" -I"$REPO/libs/cmdr11/include" \
      "$SRC" -o "$BIN.tmp.$$" -lpthread $LIBS >"$BUILD/$NAME.log" 2>&1 || { tail -30 "$BUILD/$NAME.log" >&2; echo "harness $NAME does not compile against $REPO" >&2; exit 2; }
  mv "$BIN.tmp.$$" "$BIN"
  echo "[check] built $NAME in $(( $(date +%s) - T0 )) s"
fi
# quick: half of the cases which the harness registers (DESIGN.md names the halved numbers)
if [ "$TIER" = thorough ]; then LIMIT=${VERIF_LIMIT:-720} SCALE=${VERIF_SCALE:-1}; else LIMIT=${VERIF_LIMIT:-240} SCALE=${VERIF_SCALE:-0.5}; fi
ENVV="PATH=/usr/local/bin:/usr/bin:/bin HOME=/nonexistent LANG=C TERM=dumb TZ=UTC VERIF_FINDINGS=$VERIF/known-findings.txt"
if [ -n "$REPLAY" ]; then exec env -i $ENVV "$BIN" --id "$ID" --replay "$REPLAY" $VERIF_ARGS; fi
env -i $ENVV "$BIN" --id "$ID" --tier "$TIER" --seed "$SEED" --limit "$LIMIT" --scale "$SCALE" \
    --evidence "$VERIF/evidence/$ID.json" --out "$VERIF/out" $VERIF_ARGS
RC=$?
exit $RC
