#!/bin/bash
# check.sh <property> [args of the monitor binary]: builds the monitor with the
# code of /repo's current working tree and runs it. See DESIGN.md.
id=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
ulimit -c 0
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=$here/go.work
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
mkdir -p build evidence
case $id in
C15) flags=-race; bin=build/vh-race ;;
C22) flags='-tags remote'; bin=build/vh-remote ;;
*) flags=; bin=build/vh ;;
esac
(cd harness && go build $flags -o "../$bin" .) || { echo "check: the monitor does not build against /repo" >&2; exit 2; }
exec "$here/$bin" -prop "$id" -verif "$here" "$@"
