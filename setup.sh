#!/bin/bash
# Builds the harness once, so that the compiled dependencies are in the build cache.
cd "$(dirname "$0")/harness" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GO111MODULE=on GOWORK=off
D=$(mktemp -d /tmp/vsetup-XXXXXX) || exit 1
trap 'rm -rf "$D"' EXIT
go build -o "$D/vh" . && go build -race -o "$D/vhr" . && cd "${VERIF_REPO:-/repo}" && go build -buildvcs=false -o "$D/" ./cmd/...
