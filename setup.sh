#!/bin/bash
# Builds the symbolic engine and warms the Go build cache.
cd "$(dirname "$0")" || exit 1
V=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOTELEMETRY=off CGO_ENABLED=0
[ -n "$GOCACHE" ] || export GOCACHE=${HOME:-/root}/.cache/go-build
mkdir -p bin evidence
(cd engine && GOFLAGS=-mod=mod go build -o "$V/bin/eng" .) || exit 1
echo built
