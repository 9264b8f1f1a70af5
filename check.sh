#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]. Builds the analyser and decides PROPERTY on /repo's current source.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} VERIF_ROOT=$here
mkdir -p "$here/.build" || exit 2
bin=$here/.build/gc.$$
trap 'rm -f "$bin"' EXIT
(cd "$here/checker" && go build -o "$bin" .) || exit 2
"$bin" -prop "$1" -tier "${2:-quick}" -repo /repo
