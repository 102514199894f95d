#!/bin/bash
# usage: check.sh <property> quick|thorough
# Builds the engine from the committed sources if needed, then decides one
# property on /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export HOME="${HOME:-/root}"
(cd "$here/engine" && go build -o "$here/bin/engine" .) || { echo "ERROR: engine does not build" >&2; exit 2; }
exec "$here/bin/engine" check "$1" "${2:-quick}"
