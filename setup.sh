#!/bin/bash
# Builds the symbolic engine from the committed sources, offline.
cd "$(dirname "$0")/engine" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p ../bin && go build -o ../bin/verif .
