#!/bin/bash
# Builds the drivers once (fills the Go build cache) and parses the specifications.
set -eu
cd "$(dirname "$0")/.."
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
(cd harness && go vet ./vlib && go build -o /dev/null ./cmd/... 2>/dev/null || (cd harness && go build ./cmd/...))
command -v java >/dev/null && java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
echo setup done
