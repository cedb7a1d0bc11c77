#!/bin/bash
# Development aid, not a check: mutcheck.sh REPO_COPY [PROPERTY...] runs the quick checks against a scratch copy of the
# repository, with evidence and replays in a scratch directory. Prints one line per property.
HERE=$(cd "$(dirname "$0")/.." && pwd)
. "$HERE/env.sh"
REPO=$1; shift
TMP=$(mktemp -d /tmp/mutcheck.XXXXXX) || exit 3
trap 'rm -rf "$TMP"' EXIT
mkdir "$TMP/v"; cp "$HERE/known_findings.txt" "$TMP/v/"
sed "s#=> /repo#=> $REPO#" "$HERE/harness/go.mod" > "$TMP/go.mod"; cp "$HERE/harness/go.sum" "$TMP/"
cd "$HERE/harness" || exit 3
go build -modfile="$TMP/go.mod" -o "$TMP/vmon" . || exit 3
IDS=${*:-$(for i in $(seq 1 27); do printf 'C%02d ' $i; done)}
for id in $IDS; do
  BIN=$TMP/vmon
  case $id in
  C15) go build -race -modfile="$TMP/go.mod" -o "$TMP/vmonr" . || exit 3; BIN=$TMP/vmonr ;;
  C09) go build -modfile="$TMP/go.mod" -o "$TMP/" github.com/iotaledger/trie.go/models/trie_kzg_bn256/kzg_setup ;;
  C12) go build -modfile="$TMP/go.mod" -o "$TMP/" github.com/iotaledger/trie.go/examples/trie_bench ;;
  esac
  VMON_VERIF=$TMP/v VMON_TMP=$TMP timeout 900 "$BIN" run $id > "$TMP/out" 2>"$TMP/err"; rc=$?
  case $rc in
  0) echo "$id quiet" ;;
  1) echo "$id CAUGHT $(grep -a -A1 ^VIOLATION "$TMP/out" | grep -av ^VIOL | grep -av '^--' | head -${MUT_LINES:-1} | cut -c1-${MUT_W:-260})" ;;
  *) echo "$id rc=$rc $(tail -3 "$TMP/err")" ;;
  esac
done
