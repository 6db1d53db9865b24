#!/bin/bash
# builds the verifier (offline) into /verif/bin
cd "$(dirname "$0")/engine" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p ../bin
exec go build -o ../bin/engine .
