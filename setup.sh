#!/bin/bash
# Builds the analyser offline from the committed, vendored sources.
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off GOENV=off CGO_ENABLED=0
mkdir -p .build evidence
cd tool
go build -o ../.build/ristcheck .
