#!/bin/sh
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
. ./env.sh
./build.sh || exit 2
exec .build/engine check "$1" "$2"
