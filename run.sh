#!/bin/bash
# run.sh <property> [thorough]   decide one property from /repo's current source
# run.sh --build                 build the analyser only
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor CGO_ENABLED=0
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$here/.bin" "$here/evidence"
bin=$here/.bin/lhacheck.$$
(cd "$here/lhacheck" && go build -o "$bin" .) || { echo "the analyser does not build"; exit 2; }
mv -f "$bin" "$here/.bin/lhacheck"
[ "$1" = --build ] && exit 0
[ -n "$2" ] && export VERIF_TIER=$2
export GOFLAGS=-mod=mod VERIF_ROOT=$here
exec "$here/.bin/lhacheck" "$1"
