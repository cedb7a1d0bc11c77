#!/bin/bash
# check.sh <PROPERTY> : builds the monitors from /repo's current working tree and runs the one of PROPERTY.
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough). Exit 0 held, 1 violation, anything else: no verdict.
# check.sh replay FILE : re-runs the case of a replay file.
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
ID=$1
TMP=$(mktemp -d /tmp/vmon.XXXXXX) || exit 3
trap 'rm -rf "$TMP"' EXIT
cp "$HERE/harness/go.mod" "$HERE/harness/go.sum" "$TMP/" || exit 3
RACE=
case "$ID" in C15) RACE=-race ;; esac
case "$2" in *C15*) RACE=-race ;; esac
( cd "$HERE/harness" && go build $RACE -modfile="$TMP/go.mod" -o "$TMP/vmon" . ) >"$TMP/build.log" 2>&1 || {
  cat "$TMP/build.log" >&2; echo "build failed" >&2; exit 3; }
# programs of the repository which are run by the monitors
TOOL=
case "$ID $2" in *C09*) TOOL=models/trie_kzg_bn256/kzg_setup ;; *C12*) TOOL=examples/trie_bench ;; esac
if [ -n "$TOOL" ]; then
  ( cd "$HERE/harness" && go build -modfile="$TMP/go.mod" -o "$TMP/" github.com/iotaledger/trie.go/$TOOL ) >"$TMP/build.log" 2>&1 || {
    cat "$TMP/build.log" >&2; echo "build failed" >&2; exit 3; }
fi
export VMON_VERIF="$HERE" VMON_TMP="$TMP"
cd "$TMP"
if [ "$ID" = replay ]; then "$TMP/vmon" replay "$2"; exit $?; fi
"$TMP/vmon" run "$ID"
exit $?
