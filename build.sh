#!/usr/bin/env bash
# Builds the analyzer (offline, vendored dependencies) into bin/.
set -u
cd "$(dirname "$0")/analyzer" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor
mkdir -p ../bin
exec go build -o ../bin/xmldotverif .
