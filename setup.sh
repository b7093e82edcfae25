#!/bin/bash
# Checks that the harness builds offline; every check builds it again from /repo's working tree.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
cd "$here/harness"
go build -o /dev/null .
CGO_ENABLED=1 go build -race -o /dev/null .
