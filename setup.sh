#!/bin/bash
# build the encoder and fill the build cache for the native replays
cd "$(dirname "$0")"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p bin evidence
(cd engine && go build -o ../bin/gosym .) && (cd harness && go build ./...)
