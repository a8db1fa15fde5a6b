#!/bin/bash
# Builds the checker from /verif/checker (offline, from the module cache).
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p bin
(cd checker && go build -o ../bin/checker.tmp.$$ . && mv ../bin/checker.tmp.$$ ../bin/checker)
