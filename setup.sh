#!/bin/bash
# builds the analyser
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
if [ -x bin/sidcheck ] && [ -z "$(find checker -newer bin/sidcheck -name '*.go' -print -quit)" ]; then
	exit 0
fi
mkdir -p bin
tmp=bin/sidcheck.$$
(cd checker && go build -o ../$tmp .) && mv -f "$tmp" bin/sidcheck
