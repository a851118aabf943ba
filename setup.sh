#!/bin/bash
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p .build evidence replays
cd gocv && go build -buildvcs=false -o ../.build/gocv .
