#!/bin/bash
# builds the verifier, offline, from the vendored sources
cd "$(dirname "$0")/../engine" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*'
mkdir -p ../bin
exec go build -o ../bin/jv .
