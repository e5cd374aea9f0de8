#!/bin/bash
# Nothing is kept between runs: each check builds what it needs from /repo's
# current tree. Setup only verifies that the toolchain can build the runner.
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd "$(dirname "$0")" || exit 2
go vet ./runner || exit 2
go build -o /dev/null ./runner
