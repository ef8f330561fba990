#!/bin/bash
# Builds everything once, which also fills the build cache.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
cd "$here/mc" || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
go build -o "$t/" ./cmd/... || exit 2
mkdir -p "$here/evidence"
