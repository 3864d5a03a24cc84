#!/bin/bash
# check.sh Cxx [tier]: decide one property on the current /repo working tree.
V="$(cd "$(dirname "$0")" && pwd)"
BIN=$("$V/build.sh") || { echo "build failed" >&2; exit 2; }
exec "$BIN" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -root "$V"
