#!/bin/bash
# Runs the demonstration beside this script against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$repo/protocol/go.mod" "$tmp/go.mod" && cp "$repo/protocol/go.sum" "$tmp/go.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/go.mod"
printf '{"Replace": {"%s/protocol/address/zzutil_test.go": "%s/util_test.go", "%s/protocol/address/zzdemo_test.go": "%s/demo_test.go"}}' "$repo" "$here" "$repo" "$here" > "$tmp/overlay.json"
cd "$repo/protocol" && go test -vet=off -count=1 -timeout 250s -overlay "$tmp/overlay.json" ./address
