#!/bin/bash
# check.sh PROPERTY [TIER]: builds the verifier from gocv/ and decides one property on /repo's working tree
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off
export GOCV_VERIF="$PWD"
mkdir -p .build evidence replays
fail() { # the machinery itself could not run: say so as an undischarged check
	echo "$2" > "replays/$1.txt"; echo "$2"
	echo "VIOLATION property=$1 replay=$PWD/replays/$1.txt no-failing-input-found"; exit 1
}
(cd gocv && go build -buildvcs=false -o ../.build/gocv.$$ . && mv ../.build/gocv.$$ ../.build/gocv) || fail "$1" "the verifier could not be built"
timeout 850 .build/gocv check "$1" "${2:-${VERIF_TIER:-quick}}"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || fail "$1" "the verifier ended with status $rc"
exit $rc
