#!/bin/bash
# Warm the build cache; nothing else is needed before a check.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export HOME="${HOME:-/root}" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
go version && go vet ./lib/... || exit 2
exit 0
