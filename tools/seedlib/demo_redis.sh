#!/bin/bash
# Runs the demonstration as an in-package test of the redis storage, laid over the tree.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOWORK=off GOTOOLCHAIN=local GO111MODULE=on HOME=${HOME:-/root}
P=$R/core/internal/statestore/redis
# keep the repository's own test of the package, which needs a live server, out
cat > "$T/overlay.json" <<EOF
{"Replace": {"$P/redis_test.go": "", "$P/zz_harness_test.go": "$D/redis_harness_test.go", "$P/zz_demo_test.go": "$D/demo_test.go"}}
EOF
cd "$R/core" || exit 2
go test -overlay "$T/overlay.json" -count=1 -timeout 200s -vet=off -run TestDemo ./internal/statestore/redis
rc=$?
exit $rc
