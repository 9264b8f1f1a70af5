#!/bin/bash
# Builds the analyser once, to fail early when the tool chain is missing.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GOFLAGS=-mod=mod
mkdir -p "$here/.build" && cd "$here/checker" && go build -o "$here/.build/gc" .
