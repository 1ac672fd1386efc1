#!/bin/bash
# Checks that everything the checks need is here and builds.
set -eu
cd "$(dirname "$0")/sim"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOSUMDB=off GOWORK=off CGO_ENABLED=1
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
go vet ./simrt ./simsync ./cmd/... 2>&1 | head -20 || true
go build -o "$T/instr" ./cmd/instr
go build -race -o "$T/simrun" ./cmd/simrun
echo "setup: ok"
