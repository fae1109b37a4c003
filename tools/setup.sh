#!/bin/bash
# builds the verifier
V="$(cd "$(dirname "$0")/.." && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:$PATH" GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GOFLAGS GOWORK
mkdir -p "$V/bin" && "$V/tools/bg.sh" "$V/bin/govc"
