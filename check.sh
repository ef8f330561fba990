#!/bin/bash
# check.sh PROPERTY [-tier quick|thorough] [-replay FILE]: decides one property on the current tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
for d in /opt/veriftools/go1.27.3/bin /usr/local/bin; do [ -x $d/go ] && export PATH=$d:$PATH && break; done
p=$1; shift
cd "$here/mc" || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
go build -o "$t/drive" ./cmd/drive || exit 2
"$t/drive" -prop "$p" "$@"
exit $?
