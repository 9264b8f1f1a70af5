#!/bin/bash
# run.sh [REPO] [extra go test flags]: runs the demonstrations of the genuine defects against REPO (default /repo) through an overlay.
R=${1:-/repo}; shift
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
cp /repo/go.mod $T/m.mod; cp /opt/vp/gofer.sum $T/m.sum
export GOFLAGS="-mod=mod -modfile=$T/m.mod" GOPROXY=off GOTOOLCHAIN=local
declare -A P=( [hashmap]=hashmap [util]=util [compress]=compress [keystore]=keystore [lock]=lock [buffer]=buffer [poolbuffer]=pool/buffer [uuid]=uuid [base58]=base58 [mmap]=mmap [cache]=cache [gopool]=pool/gopool [fastio]=fastio [websocket]=websocket )
cd $R
for k in "${!P[@]}"; do
  echo "{\"Replace\":{\"$R/${P[$k]}/zz_findings_test.go\":\"$D/${k}_findings_test.go\"}}" > $T/o.json
  for n in $(grep -o 'func TestF_[A-Za-z0-9_]*' $D/${k}_findings_test.go | cut -c6-); do
    if timeout 120 go test -overlay $T/o.json "$@" -vet=off -timeout 100s -count=1 -run "^$n\$" ./${P[$k]} >$T/log 2>&1; then echo "ok   $k $n"; else echo "FAIL $k $n: $(grep -m1 -E 'findings_test.go|panic:|DATA RACE|timed out|\.go:' $T/log)"; fi
  done
done
rm -r $T
