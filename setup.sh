#!/bin/bash
# Checks that the tools are there and warms the build cache.
set -e
cd "$(dirname "$0")"
command -v tlc >/dev/null
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd harness && GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o "$d/harness" .)
mkdir -p evidence
