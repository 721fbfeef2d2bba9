#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the encoder and decide one property
set -u
cd "$(dirname "$0")"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p bin evidence
(cd engine && go build -o ../bin/gosym .) || { echo "ERROR engine does not build"; exit 2; }
exec ./bin/gosym check -prop "$1" -tier "${2:-quick}" "${@:3}"
