#!/bin/bash
# Build everything once; checks rebuild from /repo on every run anyway.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
. ./lib.sh
refresh_ui
out=$(mktemp -d /tmp/vhbin-XXXXXX) || exit 1
trap 'rm -rf "$out"' EXIT
make_overlay "$out/ov" && (cd harness && go build -overlay "$out/ov/overlay.json" -o "$out/vh" .)
(cd harness && go build -o "$out/vh" . && go vet ./... >/dev/null 2>&1; true)
