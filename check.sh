#!/bin/bash
# check.sh <property> quick|thorough : decides one property on /repo's current source.
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOPROXY=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
if [ ! -x bin/checker ] || [ -n "$(find checker -name '*.go' -newer bin/checker -print -quit)" ]; then
  if ! bash ./setup.sh; then
    echo "VIOLATION property=$1 replay=none (the checker does not build)"
    exit 1
  fi
fi
exec ./bin/checker -check "$1" -tier "${2:-quick}" -repo "${VERIF_REPO:-/repo}" -home "$PWD"
