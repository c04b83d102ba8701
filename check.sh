#!/bin/bash
# check.sh build | check.sh <property id>: builds the checker from /verif and runs it on /repo.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1
bin="$PWD/checker/bin/chk"
mkdir -p evidence checker/bin
(cd checker && go build -o "$bin" .) || exit 2
[ "$1" = build ] && exit 0
exec "$bin" check "$@"
