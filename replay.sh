#!/bin/bash
# replay.sh FILE [-v]: replay a violation on the current /repo working tree (exit 1 when it occurs).
V="$(cd "$(dirname "$0")" && pwd)"
BIN=$("$V/build.sh") || exit 2
exec "$BIN" replay "$@"
