#!/bin/bash
# check.sh <property> <quick|thorough> [engine flags]
# Builds the symbolic engine when it is missing or stale and runs it on /repo's current tree.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOTELEMETRY=off CGO_ENABLED=0 GOFLAGS=
[ -n "$GOCACHE" ] || export GOCACHE=${HOME:-/root}/.cache/go-build
P=$1; T=${2:-quick}; shift 2
BIN=$V/bin/eng
(
  flock 9
  if [ ! -x "$BIN" ] || [ -n "$(find engine -name '*.go' -newer "$BIN" -print -quit)" ]; then
    mkdir -p "$V/bin"
    (cd engine && GOFLAGS=-mod=mod go build -o "$BIN.tmp.$$" . && mv "$BIN.tmp.$$" "$BIN") || exit 2
  fi
) 9>"$V/.lock" || exit 2
exec "$BIN" -prop "$P" -tier "$T" -verif "$V" "$@"
