#!/bin/bash
# Runs the demonstration beside this file against the tree in the current
# directory: exit 0 if the property holds in it.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go","%s/zz_demo/help.go":"%s/help.go"}}' "$PWD" "$d" "$PWD" "$d" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 3
timeout 120 "$t/demo"
