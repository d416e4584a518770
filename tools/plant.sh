#!/bin/bash
# confirms a planted bug: plant.sh ID [notests]
# demo passes on a copy of /repo, patch applies, builds, stable tests pass, demo fails with it
id=$1; d=/verif/seeded/$id; W=/tmp/plant/$id
. /opt/vp/env.sh
mkdir -p /tmp/plant; [ -n "$id" ] && rm -rf "/tmp/plant/$id"; git -C /repo worktree prune; cp -a /repo $W; D=/tmp/plant/demo.$id; rm -rf "$D"; mkdir -p $D; cp -r $d/. $D/; rm -f $D/*.diff $D/meta.json
cd $W; git checkout -q -- .
timeout 300 bash $D/demo.sh > $D/out.clean 2>&1 || { echo "$id: demo fails on clean tree"; tail -20 $D/out.clean; exit 1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
timeout 300 bash $D/demo.sh > $D/out.bug 2>&1 && { echo "$id: demo passes with the bug"; exit 1; }
grep -q "build failed\|cannot find" $D/out.bug && { echo "$id: demo does not compile"; tail -5 $D/out.bug; exit 1; }
if [ "$2" != notests ]; then
  rm -rf /tmp/TestConfig* /tmp/TestState* /tmp/TestDiffSet* /tmp/TestSetShares*
  TMPDIR=$(mktemp -d) go test -vet=off -count=1 -p 1 $(go list ./... | grep -v '/test$') > $D/out.tests 2>&1 || { echo "$id: tests fail"; grep -- "--- FAIL\|^FAIL" $D/out.tests | head; exit 1; }
fi
echo "$id: confirmed"; grep -- "--- FAIL\|demo" $D/out.bug | head -3
rm -rf "$W" "$D"
