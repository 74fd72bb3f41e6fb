#!/bin/bash
# run.sh ID quick|thorough: builds the analyzer from /verif/analyzer and runs
# one check on /repo's current working tree. run.sh setup only builds.
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
mkdir -p bin evidence
(cd analyzer && GOFLAGS=-mod=mod go build -o ../bin/riotcheck.$$ . && mv -f ../bin/riotcheck.$$ ../bin/riotcheck) || exit 2
[ "$1" = setup ] && exit 0
exec bin/riotcheck "$1" "${2:-quick}"
