#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
cd "$(dirname "$0")/../harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
go version && go build ./lib
