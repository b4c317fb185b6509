#!/bin/bash
# Warm the Go build cache; every check rebuilds from /repo anyway.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
. "$VERIF/tools/goenv.sh"
mkdir -p "$VERIF/evidence"
cd "$VERIF/harness" && go build -o "$BUILD/" ./cmd/... || exit 1
