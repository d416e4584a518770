#!/bin/bash
# builds the checker (offline, from the module cache) into the git-ignored .bin
cd "$(dirname "$0")/checker" || exit 2
mkdir -p ../.bin
. /opt/vp/env.sh
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
exec go build -o ../.bin/horcruxcheck .
