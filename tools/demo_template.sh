#!/bin/bash
# runs demo_test.go as a test of package PKG
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
export HOME=${HOME:-/root} CGO_ENABLED=1
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test FLAGS -vet=off -count=1 -timeout 280s -overlay "$tmp/overlay.json" -run '^TestDemo' ./PKG
