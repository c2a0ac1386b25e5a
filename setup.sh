#!/bin/bash
# warms the build cache; every check builds what it needs by itself
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 1
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME="${HOME:-/root}"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
out="$(mktemp -d)" || exit 1
trap '/bin/rm -rf "$out"' EXIT
cd harness && CGO_ENABLED=0 go build -o "$out/check" ./cmd/check && CGO_ENABLED=1 go build -race -o "$out/check-race" ./cmd/check
