#!/bin/sh
# Warms the build cache; every check builds what it needs by itself as well.
set -e
cd "$(dirname "$0")/../harness"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
for p in $(python3 -c 'import json; print(*sorted({p["pkg"] for v in json.load(open("../bin/checks.json")).values() for p in [v] + v.get("also", [])}))'); do
	go test -c -vet=off -o /dev/null "./$p" || echo "setup: $p does not build"
done
