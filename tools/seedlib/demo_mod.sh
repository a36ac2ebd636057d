#!/bin/bash
# Runs the demonstration as an in-package test of @DIR@, laid over the tree.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on HOME=${HOME:-/root}
{
  echo "go 1.21.6"
  for m in core functions/golang/battleroyale functions/golang/soloduel functions/golang/teamshooter matchmaker-example mmf mmf/server pkg/api/v2 pkg/pb/v2; do
    echo "use $R/$m"
  done
} > "$T/go.work"
cp "$R/go.work.sum" "$T/go.work.sum"
export GOWORK="$T/go.work"
cat > "$T/overlay.json" <<EOF
{"Replace": {"$R/@DIR@/zz_demo_test.go": "$D/demo_test.go"}}
EOF
cd "$R/@DIR@" || exit 2
go test -overlay "$T/overlay.json" -count=1 -timeout 200s -vet=off -run TestDemo @RACE@ .
rc=$?
exit $rc
