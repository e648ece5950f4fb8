#!/bin/bash
# Warms the Go build cache (plain and race builds of the harness). Checks rebuild by themselves.
set -eu
cd "$(dirname "$0")/harness"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off CGO_ENABLED=1
out=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$out"' EXIT
go vet -mod=readonly . || true
go build -mod=readonly -o "$out/h" .
go build -mod=readonly -race -o "$out/hr" .
echo setup done
