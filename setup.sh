#!/bin/bash
# warms the Go build cache (plain and race builds); checks build again by themselves
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
TMP=$(mktemp -d /tmp/vmon.XXXXXX) || exit 3
trap 'rm -rf "$TMP"' EXIT
cp "$HERE/harness/go.mod" "$HERE/harness/go.sum" "$TMP/"
cd "$HERE/harness" || exit 3
go build -modfile="$TMP/go.mod" -o "$TMP/vmon" . && go build -race -modfile="$TMP/go.mod" -o "$TMP/vmonr" .
