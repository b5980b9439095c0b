#!/bin/bash
# run.sh <property> [--replay FILE] [...]: builds the explorer from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
BIN=$(tools/build.sh) || exit 2
id=$1; shift
[ "$id" = C12 ] && BIN=${BIN}f
if [ "${VERIF_TIER:-quick}" = thorough ]; then B=3000; else B=600; fi
exec "$BIN" "$id" --root "$PWD" --budget "${VERIF_BUDGET:-$B}" "$@"
