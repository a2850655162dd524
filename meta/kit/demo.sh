#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export DEMO_DIR="$t"
printf '{"Replace":{"%s/zz_demo/kit.go":"%s/kit.go","%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" "$PWD" "$here" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 2
timeout 200 "$t/demo"
