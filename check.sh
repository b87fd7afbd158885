#!/bin/bash
# check.sh ID: decide property ID for /repo's current source
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0 VERIF_DIR="$PWD"
bash ./build.sh || exit 2
exec ./bin/sortyai -dir "${VERIF_REPO:-/repo}" -check "$1"
