#!/bin/bash
# usage: run.sh ID [gosym flags]; builds the engine if needed and runs one check
cd "$(dirname "$0")" || exit 2
root=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export HOME="${HOME:-/root}"
if [ ! -x bin/gosym ] || [ -n "$(find engine -name '*.go' -newer bin/gosym -print -quit)" ]; then
  mkdir -p bin
  (cd engine && GOFLAGS=-mod=vendor go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym) || exit 2
fi
case "$1" in
  build) exit 0 ;;
  replay) shift; exec env VERIF_ROOT="$root" bin/gosym replay "$@" ;;
esac
exec env VERIF_ROOT="$root" bin/gosym check "$@"
