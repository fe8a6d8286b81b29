#!/bin/bash
# check.sh <property>         explore (VERIF_TIER=quick|thorough, VERIF_SEED)
# check.sh --replay <file>    re-run one saved case
# Builds the harness and the code under test from /repo's working tree into a scratch directory.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
export GOMODCACHE=/root/go/pkg/mod
unset GODEBUG
[ -w "${GOCACHE:=/root/.cache/go-build}" ] || mkdir -p "$GOCACHE" 2>/dev/null
export GOCACHE
scratch=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM HUP
case "${1:-}" in
  --replay) prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1) ;;
  *) prop=${1:?usage: check.sh PROPERTY | --replay FILE} ;;
esac
race=
case "$prop" in C19|C20) race=-race ;; esac
# The builder types are exported, but nobody needs them: the harness can do without.
(cd "$verif/harness" && { go build $race -tags builders -o "$scratch/harness" . || go build $race -o "$scratch/harness" . ; }) >"$scratch/build.log" 2>&1 || { cat "$scratch/build.log" >&2; echo "error: the harness does not build" >&2; exit 2; }
case "$prop" in
  C17|C18) (cd "$verif/harness" && go build -o "$scratch/dawgtool" github.com/deNULL/dawg/cmd/dawgtool) >"$scratch/build.log" 2>&1 || { cat "$scratch/build.log" >&2; echo "error: dawgtool does not build" >&2; exit 2; }
    export VERIF_DAWGTOOL=$scratch/dawgtool ;;
esac
[ -z "${VERIF_BUILD_ONLY:-}" ] || exit 0
mkdir -p "$scratch/run"
export VERIF_SCRATCH="$scratch/run"
if [ "$1" = --replay ]; then
  "$scratch/harness" -replay "$2"
else
  "$scratch/harness" -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -scratch "$scratch/run" -verif "$verif" ${VERIF_SCALE:+-scale "$VERIF_SCALE"}
fi
code=$?
[ $code -le 1 ] || code=2
exit $code
