#!/bin/bash
# check.sh <property> <quick|thorough>   run one check
# check.sh replay <file>                 replay a recorded violation
# check.sh setup                         build the driver
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
G=/opt/veriftools/go1.24.13
[ -x "$G/bin/go" ] || G=$(dirname "$(dirname "$(readlink -f "$(command -v go1.24)")")")
export PATH="$G/bin:$PATH" GOROOT="$G" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG GOMAXPROCS GOGC GOMEMLIMIT
mkdir -p bin evidence
(cd sim && go build -o ../bin/.vsim.$$ . && mv ../bin/.vsim.$$ ../bin/vsim) || exit 2
[ "$1" = setup ] && exit 0
exec ./bin/vsim "$@"
