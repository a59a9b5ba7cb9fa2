#!/bin/bash
# Runs the demonstrations of the defects found in /repo (see known-findings.txt) against a tree: run.sh [TREE]
here=$(cd "$(dirname "$0")" && pwd); tree=${1:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
cat > "$t/o.json" <<J
{"Replace": {
 "$tree/provider/redis/zz_fake_test.go": "$here/fakeredis_test.go.txt",
 "$tree/provider/redis/zz_find_test.go": "$here/redis_test.go.txt",
 "$tree/provider/bolt/zz_find_test.go": "$here/bolt_test.go.txt",
 "$tree/zz_find_test.go": "$here/root_test.go.txt"}}
J
cd "$tree" && TMPDIR=$t go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run "${RUN:-Find|Refresh|Keys|Reserved|DeleteGate|Glob|CreateReplaces|CloseClient|PutRace}" ${PKG:-. ./provider/bolt ./provider/redis}
