#!/bin/bash
# usage: run.sh PROPERTY — decides one property for /repo's working tree (exit 0: holds, 1: violated)
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
. /opt/vp/env.sh
exec .bin/horcruxcheck "$1" "${REPO:-/repo}" "$PWD"
