#!/bin/bash
# Runs demo_test.go as a test of the package named in the file "pkg".
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
pkg=$(cat "$here/pkg")
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$pkg" "$here" >"$tmp/overlay.json"
args=$(cat "$here/args" 2>/dev/null)
TMPDIR="$tmp" go test -vet=off -count=1 -timeout 200s $args -overlay "$tmp/overlay.json" -run '^TestDemo$' "./$pkg"
