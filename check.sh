#!/bin/bash
# check.sh <property> quick|thorough: builds the engine and runs it on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GONOSUMDB='*'
tmp=$(mktemp -d /tmp/verif-engine-XXXXXX)
trap 'rm -r -f -- "$tmp"' EXIT
if ! (cd "$here/engine" && GOFLAGS=-mod=mod go build -o "$tmp/engine" .) 2>"$tmp/err"; then
  cat "$tmp/err"
  exit 2
fi
"$tmp/engine" "$@"
