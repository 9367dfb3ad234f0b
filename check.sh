#!/bin/bash
# bash check.sh <property> [quick|thorough]   -- builds from /repo's working tree, explores, writes evidence/<property>.json
# bash check.sh replay <file>                 -- replays a recorded violation
# bash check.sh build                         -- only builds
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
export SIM_VERIF="$here" SIM_REPO="${SIM_REPO:-/repo}"
mkdir -p "$here/.build"
(cd "$here/tool" && go build -o "$here/.build/simtool" .) || exit 3
case "${1:-}" in
build) exec "$here/.build/simtool" build ;;
replay) exec "$here/.build/simtool" replay "$2" ;;
*) exec "$here/.build/simtool" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
