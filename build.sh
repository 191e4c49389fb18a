#!/bin/bash
# builds the engine offline from the committed sources
cd "$(dirname "$0")/gosym" || exit 2
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off
mkdir -p ../bin && exec go build -o ../bin/gosym .
