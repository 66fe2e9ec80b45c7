#!/bin/bash
# usage: check.sh PROPERTY    (run in /verif)
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOSUMDB=off
: "${HOME:=/root}" "${GOCACHE:=$HOME/.cache/go-build}"
export HOME GOCACHE
if [ ! -x bin/checker ] || [ -n "$(find checker -name '*.go' -not -path '*/vendor/*' -newer bin/checker -print -quit)" ]; then
	mkdir -p bin
	(cd checker && go build -mod=vendor -o ../bin/checker .) || { echo "cannot build the checker" >&2; exit 2; }
fi
exec bin/checker "$1"
