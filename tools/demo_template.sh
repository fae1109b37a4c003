#!/bin/bash
# usage: demo.sh (cwd: the repository). Runs the demonstration test beside this file inside package @PKG@ through a go overlay.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export HOME="${HOME:-/root}" PATH="/usr/local/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=1
unset GOWORK
python3 - "$R" "$W" "$D" <<'P' || exit 3
import json, os, re, sys
R, W, D = sys.argv[1:]
rep = {}
for root, dirs, files in os.walk(R):
    dirs[:] = [d for d in dirs if d != ".git"]
    if "go.mod" in files:
        src = os.path.join(root, "go.mod")
        t = open(src).read()
        n = re.sub(r"(?m)^\s*(?:require\s+)?gitlab\.mpi-sws\.org/cld/tracing/tracing-framework-go\s.*\n", "", t)
        if n != t:
            dst = os.path.join(W, os.path.relpath(src, R).replace("/", "_"))
            open(dst, "w").write(n)
            rep[src] = dst
rep[os.path.join(R, "@PKG@", "zz_demo_test.go")] = os.path.join(D, "demo_test.go")
json.dump({"Replace": rep}, open(os.path.join(W, "overlay.json"), "w"))
P
export GOFLAGS="-overlay=$W/overlay.json"
cd "$R/@PKG@" && go test -vet=off -count=1 -timeout 200s @ARGS@ -run TestDemo .
