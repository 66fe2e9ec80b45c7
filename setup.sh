#!/bin/bash
# builds the analyser from its vendored sources; needs no network
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOSUMDB=off
: "${HOME:=/root}" "${GOCACHE:=$HOME/.cache/go-build}"
export HOME GOCACHE
mkdir -p bin evidence
cd checker && go build -mod=vendor -o ../bin/checker .
