#!/bin/bash
# check.sh ID [--replay FILE] [extra flags]: build the check for ID from /repo's
# working tree and run it. Exit 0 held, 1 violation, 2 error of the check.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
OUT="${VERIF_OUT:-$VERIF}"
ID="$1"; shift
EXTRA=()
while [ $# -gt 0 ]; do
  case "$1" in
    --replay) EXTRA+=(-replay "$2"); shift 2;;
    *) EXTRA+=("$1"); shift;;
  esac
done
. "$VERIF/tools/goenv.sh"
. "$VERIF/tools/build.sh"
BIN="$BUILD/check-$ID"
if ! (build_check "$ID" "$BIN") >"$BUILD/log" 2>&1; then
  cat "$BUILD/log" >&2
  echo "check $ID: build failed" >&2
  exit 2
fi
[ -f "$BIN.env" ] && . "$BIN.env"
[ -n "${VERIF_DEBUG:-}" ] && cat "$BUILD/log" >&2
VERIF_KNOWN="$VERIF/known_findings.json" "$BIN" -check "$ID" -out "$OUT" "${EXTRA[@]}"
