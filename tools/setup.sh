#!/bin/sh
# Checks that the framework builds here; every check builds what it needs itself.
set -e
cd "$(dirname "$0")/../harness"
out=$(mktemp -d)
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off PATH=/usr/local/go/bin:$PATH go build -o "$out/harness" .
rm -rf "$out"
