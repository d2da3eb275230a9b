#!/bin/sh
# builds the symbolic engine and warms the build cache of the replayer
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .build
(cd engine && go build -o ../.build/engine .) || exit 2
(cd harness && go build -o ../.build/harness .) || exit 2
