#!/bin/bash
# Builds the symbolic executor into bin/symgo (offline, vendored).
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0 go build -o ../bin/symgo.$$ .
mv ../bin/symgo.$$ ../bin/symgo
