#!/bin/bash
# builds the checker and runs it for the given properties (development helper): hx.sh [-r REPO] ID...
REPO=/repo; [ "$1" = -r ] && { REPO=$2; shift 2; }
( cd /verif/checker && PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /tmp/hx . ) || exit 2
. /opt/vp/env.sh; mkdir -p /tmp/vt; cp -f /verif/KNOWN_FINDINGS /tmp/vt/ 2>/dev/null
for i in "$@"; do timeout 900 /tmp/hx $i $REPO /tmp/vt 2>&1 | cut -c1-${W:-400} | grep -v "^    " | head -${N:-40}; done
