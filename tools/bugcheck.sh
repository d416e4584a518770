#!/bin/bash
# runs the check of each planted bug's property against a patched copy: bugcheck.sh [ID...]
( cd /verif/checker && PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /tmp/hx . ) || exit 2
. /opt/vp/env.sh
[ $# = 0 ] && set -- $(ls /verif/seeded)
one() {
  id=$1; d=/verif/seeded/$id; W=/tmp/bugs/$id; mkdir -p /tmp/bugs/v.$id; rm -rf "$W"; cp -a /repo $W; git -C $W checkout -q -- .
  git -C $W apply $d/patch.diff || { echo "$id: no apply"; return; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -f /verif/KNOWN_FINDINGS /tmp/bugs/v.$id/ 2>/dev/null
  timeout 900 /tmp/hx $p $W /tmp/bugs/v.$id > /tmp/bugs/$id.out 2>&1; rc=$?
  if grep -q "^VIOLATION property=$p" /tmp/bugs/$id.out; then echo "$id: caught by $p: $(grep -v '^ ' /tmp/bugs/$id.out | head -1 | cut -c1-170)"; else echo "$id: MISSED by $p (rc $rc): $(head -1 /tmp/bugs/$id.out|cut -c1-150)"; fi
  rm -rf "$W"
}
export -f one
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
