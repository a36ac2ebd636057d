#!/bin/bash
# usage: check.sh PROPERTY ; builds the checker when needed, then runs it on /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
new=$(find "$here/checker" -name '*.go' -newer "$here/bin/checker" 2>/dev/null | head -1)
if [ ! -x "$here/bin/checker" ] || [ -n "$new" ]; then
  mkdir -p "$here/bin"
  tmp="$here/bin/checker.$$"
  if ! (cd "$here/checker" && go build -o "$tmp" .) >&2; then
    echo "the checker does not build" >&2
    exit 2
  fi
  mv "$tmp" "$here/bin/checker"
fi
exec "$here/bin/checker" check "$1"
