#!/bin/bash
# warms the build cache; every check builds again from /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 1
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=$here/go.work
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
mkdir -p "$here/build"
go build -o ../build/vh . && go build -race -o ../build/vh-race . && go build -tags remote -o ../build/vh-remote .
