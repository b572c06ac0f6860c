#!/bin/bash
# Builds the harness once so that later builds only recompile what changed.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/.build" "$here/evidence"
cd "$here/harness" || exit 2
go build -o "$here/.build/vh" ./cmd/vh && go build -race -o "$here/.build/vh_race" ./cmd/vh
