#!/bin/bash
# replay.sh FILE: reruns a violation found by the harness against /repo's current tree.
f=$(realpath "$1"); cd "$(dirname "$0")/harness" || exit 2
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
go build -o "$t/vh" . || exit 2
"$t/vh" -replay "$f" -tmp "$t"
