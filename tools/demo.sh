#!/bin/bash
# runs demo_test.go, which lies beside this script, inside the package (cwd: the repository)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
cp "$D/demo_test.go.txt" "$T/demo_test.go"
echo "{\"Replace\":{\"$PWD/zz_demo_test.go\":\"$T/demo_test.go\"}}" > "$T/o.json"
timeout 280 go test -vet=off -count=1 -overlay "$T/o.json" -run '^TestDemo$' . 
