#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
(cd gover && go build -o "$t/gover" .) && (cd harness && go build -o "$t/vh" .) && echo ok
