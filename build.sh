#!/bin/bash
# Builds the simulator for the current working tree of /repo (or $REPO); prints the path of the binary.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=0
W="$V/.work"
mkdir -p "$W"
exec 9>"$W/lock"
flock 9
TH=$(cd "$V/sim" && find instr -type f | sort | xargs sha256sum | sha256sum | cut -c1-16)
TOOL="$W/simtool-$TH"
if [ ! -x "$TOOL" ]; then
  (cd "$V/sim/instr" && go build -trimpath -o "$TOOL.tmp" . && mv "$TOOL.tmp" "$TOOL") >&2
fi
H=$( { cd "$V/sim" && find . -type f | sort | xargs sha256sum; cd "$REPO" && find . -name .git -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum \) -print | sort | xargs sha256sum; } | sha256sum | cut -c1-16)
OUT="$W/$H"
if [ ! -x "$OUT/simbin" ]; then
  rm -rf "$W/src-$H"
  "$TOOL" -repo "$REPO" -sim "$V/sim" -out "$W/src-$H" >&2
  mkdir -p "$OUT"
  if ! (cd "$W/src-$H" && go build -trimpath -o "$OUT/simbin.tmp" ./zzsim/cmd/simbin) >&2; then
    # perhaps only the in-package driver (C21) does not fit this tree
    rm -rf "$W/src-$H"
    "$TOOL" -repo "$REPO" -sim "$V/sim" -out "$W/src-$H" -fallback >&2
    (cd "$W/src-$H" && go build -trimpath -o "$OUT/simbin.tmp" ./zzsim/cmd/simbin) >&2
  fi
  mv "$OUT/simbin.tmp" "$OUT/simbin"
  [ -n "$KEEP_SRC" ] || rm -rf "$W/src-$H"
  # keep only the most recent builds
  ls -dt "$W"/*/ 2>/dev/null | tail -n +9 | xargs -r rm -rf
fi
touch "$OUT"
echo "$OUT/simbin"
