#!/bin/bash
# Runs the demonstration as an in-package test of core, laid over the tree.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOWORK=off GOTOOLCHAIN=local GO111MODULE=on HOME=${HOME:-/root}
cat > "$T/overlay.json" <<EOF
{"Replace": {"$R/core/zz_harness_test.go": "$D/core_harness_test.go", "$R/core/zz_demo_test.go": "$D/demo_test.go"}}
EOF
cd "$R/core" || exit 2
exec_args="-overlay $T/overlay.json -count=1 -timeout 200s -vet=off -run TestDemo @RACE@ ."
go test $exec_args
rc=$?
exit $rc
