#!/bin/bash
# Builds the static checker into /verif/bin (git-ignored), offline.
set -e
cd "$(dirname "$0")/checker"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GOFLAGS=-mod=mod
mkdir -p ../bin
go build -o ../bin/jtcheck.$$ . && mv -f ../bin/jtcheck.$$ ../bin/jtcheck
