#!/bin/bash
# Warms the build cache for the harness (every check rebuilds from /repo's tree anyway).
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
go test -c -vet=off -o "$d/plain" . && go test -c -vet=off -race -o "$d/race" .
