#!/bin/bash
# builds govc into $1
O="$(realpath -m "$1")"
cd "$(dirname "$0")/../govc" && GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod go build -o "$O" .
