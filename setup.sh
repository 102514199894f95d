#!/bin/bash
# Builds the engine and warms the Go build cache for the native replay.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export HOME="${HOME:-/root}"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/engine"
go build -o "$here/bin/engine" .
cd "$here/harness"
scratch="$(mktemp -d)"
go build -o "$scratch/replay" ./cmd/replay
CGO_ENABLED=1 go build -race -o "$scratch/replay-race" ./cmd/replay
rm -rf -- "${scratch:?}"
