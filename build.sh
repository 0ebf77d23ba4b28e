#!/bin/bash
# Builds the analyser (offline, from the vendored sources).
set -e
cd "$(dirname "$0")/analyzer"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
mkdir -p ../bin
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
tmp="../bin/.analyzer.$$"
trap 'rm -f "$tmp"' EXIT
go build -o "$tmp" .
mv "$tmp" ../bin/analyzer
