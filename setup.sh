#!/bin/bash
# Builds the harness once with and once without the race detector, to fill the build cache.
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 1
mkdir -p ../work/bin
CGO_ENABLED=1 go build -o ../work/bin/harness . && CGO_ENABLED=1 go build -race -o ../work/bin/harness-race .
