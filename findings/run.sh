#!/bin/bash
# Runs the demonstrations of the repaired defects against the tree $1 (default /repo): each test is run on its own.
# usage: run.sh [TREE]
T=${1:-/repo}; D=$(cd "$(dirname "$0")"; pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOTRACEBACK=none
o=$(mktemp -d); trap 'rm -rf "$o"' EXIT
cd "$T" || exit 1
for p in iproto: marshal:marshal sbox:sbox net:net server:net/server client:net/client connection:net/client/connection; do
  n=${p%%:*}; d=${p#*:}
  echo "{\"Replace\":{\"$T/${d:+$d/}x_verif_test.go\":\"$D/${n}_x_test.go\"}}" > $o/ov.json
  go test -vet=off -overlay $o/ov.json -c -o $o/t ./$d || { echo "BUILD FAIL $n"; continue; }
  for t in $(grep -o '^func TestF_[A-Za-z0-9]*' "$D/${n}_x_test.go" | cut -c6-); do
    if (ulimit -v 20000000; timeout 60 $o/t -test.run "^$t\$" >$o/log 2>&1); then echo "ok   $n $t"; else echo "FAIL $n $t: $(grep -m1 -E 'panic:|_test.go' $o/log | cut -c1-120)"; fi
  done
done
