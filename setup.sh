#!/bin/bash
# builds the checker from the committed files
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" && go build -o "$here/bin/checker" .
