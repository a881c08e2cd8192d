#!/bin/bash
# ./check.sh run ID      runs the check of one property (VERIF_TIER, VERIF_SEED)
# ./check.sh replay FILE runs one saved case again
# Everything is built from /repo's working tree, offline.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*'
export VERIF_DIR=$here
out=$(mktemp -d "${TMPDIR:-/tmp}/lv.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
mkdir -p "${GOCACHE:-$HOME/.cache/go-build}" 2>/dev/null
if ! [ -w "${GOCACHE:-$HOME/.cache/go-build}" ]; then export GOCACHE=$out/cache; fi
if [ "$1" = setup ]; then # fills the build cache; every check builds for itself
  cd "$here/harness" && go build -o "$out/lv" . && go build -race -o "$out/lvr" .
  exit
fi
race=
case "$1 $2" in
  "run C15") race=-race ;;
  replay*) if grep -q '"property":"C15"' "$2"; then race=-race; fi ;;
esac
if ! (cd "$here/harness" && go build $race -o "$out/lv" .) >"$out/build.log" 2>&1; then
  cat "$out/build.log"
  echo "error: the check does not build"
  exit 2
fi
mkdir -p "$out/tmp"
TMPDIR=$out/tmp "$out/lv" "$@"
