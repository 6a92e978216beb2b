#!/bin/bash
# Builds the analyser into tool/bin (ignored by git).
cd "$(dirname "$0")/tool" || exit 2
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin
go build -o bin/vt.new . && mv -f bin/vt.new bin/vt
