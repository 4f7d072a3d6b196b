#!/bin/bash
# Warm the build cache; everything is rebuilt from /repo by each check.
set -e
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
d=$(mktemp -d)
cp "$(dirname "$0")"/harness/*.go "$(dirname "$0")"/harness/go.mod "$(dirname "$0")"/harness/go.sum "$d"/
(cd "$d" && go build -o "$d/vh" .)
"$d/vh" list
cd / && find "$d" -delete
