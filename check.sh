#!/bin/bash
# check.sh PROPERTY...: decide properties on /repo's current source.
# Builds the analyzer (./checker) if this copy has none yet, then runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS=-mod=vendor GO111MODULE=on CGO_ENABLED=0
export HOME=${HOME:-/root}
bin=$here/.bin/checker
stamp=$(cat "$here"/checker/*.go "$here"/checker/go.mod "$here"/checker/stub/* 2>/dev/null | sha256sum | cut -c1-16)
if [ ! -x "$bin" ] || [ "$(cat "$here/.bin/stamp" 2>/dev/null)" != "$stamp" ]; then
	mkdir -p "$here/.bin"
	if ! (cd "$here/checker" && go build -o "$bin.new" .); then
		echo "check.sh: cannot build the analyzer" >&2
		exit 2
	fi
	mv "$bin.new" "$bin"
	echo "$stamp" > "$here/.bin/stamp"
fi
[ $# -eq 0 ] && exit 0
props=$(IFS=,; echo "$*")
exec "$bin" -repo "$repo" -out "$here/evidence" -known "$here/known_findings.txt" -prop "$props"
