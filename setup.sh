#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$0")/sim" || exit 2
export GOPROXY=off GOFLAGS= GOWORK=off GOTOOLCHAIN=local GO111MODULE=on CGO_ENABLED=0
go build -o /dev/null ./cmd/instrument && go vet ./simrt ./cmd/instrument
