# Sourced by the check scripts: offline Go environment, private build directory,
# overlay that gives the repository a go.mod when it has none.
export HOME="${HOME:-/root}"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GONOSUMDB=* GOFLAGS= GONOSUMCHECK=1
BUILD="$(mktemp -d "${TMPDIR:-/tmp}/verif-build.XXXXXX")"
trap 'rm -rf "$BUILD"' EXIT
if ! mkdir -p "$(go env GOCACHE)" 2>/dev/null || ! [ -w "$(go env GOCACHE)" ]; then
  export GOCACHE="$BUILD/gocache"
fi
sed "s#@REPO@#$REPO#; s#@VERIF@#$VERIF#" "$VERIF/harness/go.mod.in" > "$BUILD/go.mod"
: > "$BUILD/go.sum"
if [ -e "$REPO/go.mod" ]; then
  printf '{"Replace":{}}' > "$BUILD/overlay.json"
else
  printf '{"Replace":{"%s/go.mod":"%s/harness/repo.mod"}}' "$REPO" "$VERIF" > "$BUILD/overlay.json"
fi
export GOFLAGS="-mod=mod -modfile=$BUILD/go.mod -overlay=$BUILD/overlay.json"
