#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]   (run anywhere; builds the analyser when needed)
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
unset GOFLAGS
export HOME=${HOME:-/root}
bin=$here/bin/gov1check
mkdir -p "$here/bin"
if [ ! -x "$bin" ] || [ -n "$(find "$here/tool" -maxdepth 1 -name '*.go' -newer "$bin" -print -quit)" ]; then
  (cd "$here/tool" && go build -mod=vendor -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "analyser does not build"; exit 2; }
fi
[ "$1" = setup ] && exit 0
exec "$bin" check "$here" /repo "$1" "${2:-${VERIF_TIER:-quick}}"
