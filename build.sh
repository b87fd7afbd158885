#!/bin/bash
# builds the analyser from the committed source
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0
mkdir -p bin
cd sortyai && exec go build -o ../bin/sortyai .
