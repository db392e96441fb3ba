#!/bin/bash
# runs the demonstration as an in-package test of the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -r -- "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod TMPDIR="$T"
timeout 240 go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestZZDemo$' . < /dev/null
