#!/bin/bash
# Builds the contract verifier and warms the Go build cache. Offline.
set -e
cd "$(dirname "$0")"
mkdir -p bin evidence
(cd gocv && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o ../bin/gocv .)
( . /opt/vp/env.sh; cd /repo && go build ./... && go vet -vettool=/bin/true ./... >/dev/null 2>&1 || true
  cd /repo && go test -vet=off -count=1 -run XXX ./... >/dev/null 2>&1 || true )
exit 0
