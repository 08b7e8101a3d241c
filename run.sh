#!/bin/bash
# usage: run.sh <property> [quick|thorough] - builds the analyser (offline, vendored) and decides one property on /repo
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
[ -n "$2" ] && export VERIF_TIER="$2"
mkdir -p .build
(cd checker && go build -o ../.build/chk.$$ . && mv -f ../.build/chk.$$ ../.build/chk) || exit 2
[ -n "$1" ] || exit 0
exec .build/chk check "$1"
