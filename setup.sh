#!/bin/bash
# Warms the build cache: builds all checks once. Nothing else needs preparing.
cd "$(dirname "$0")/harness" || exit 1
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
go build ./... || exit 1
mkdir -p ../evidence
exit 0
