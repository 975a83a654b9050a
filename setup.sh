#!/bin/bash
# setup.sh: checks that the engine builds from the committed files, and warms the build cache for it and for /repo.
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GONOSUMDB='*'
tmp=$(mktemp -d /tmp/verif-engine-XXXXXX)
trap 'rm -r -f -- "$tmp"' EXIT
(cd "$here/engine" && GOFLAGS=-mod=mod go build -o "$tmp/engine" .) || exit 1
(cd /repo && GOFLAGS=-mod=readonly go build ./pp ./pol ./verkle) || exit 1
exit 0
