#!/bin/bash
# Nothing to install: every check compiles its own harness from /repo's working tree. Only makes sure the tools are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p build evidence out
for t in g++ sha1sum find; do command -v $t >/dev/null || { echo "missing $t" >&2; exit 1; }; done
[ -f /repo/libs/cmdr11/include/cmdr11/cmdr11.hh ] || { echo "no /repo" >&2; exit 1; }
echo ok
