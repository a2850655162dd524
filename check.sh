#!/bin/bash
# check.sh build | replay FILE | explore PROP SECONDS | PROP quick|thorough
set -u
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
unset GOEXPERIMENT GODEBUG GOOS GOARCH GOGC GOMAXPROCS
mkdir -p /verif/.build
export GOCACHE=/verif/.build/gocache
(cd /verif/sim && flock /verif/.build/ctl.lock go build -o /verif/.build/simctl ./cmd/simctl) || { echo "cannot build simctl" >&2; exit 3; }
case "${1:-}" in
  build) exec /verif/.build/simctl build ;;
  replay) exec /verif/.build/simctl replay "$2" ;;
  explore) shift; exec /verif/.build/simctl explore "$@" ;;
  *) exec /verif/.build/simctl check "$1" "${2:-quick}" ;;
esac
