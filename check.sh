#!/bin/bash
# bash check.sh <property> [extra args of the monitor binary]
# Builds the monitors against /repo's current working tree and runs one property's check.
# Exit 0: held on everything explored; 1: VIOLATION line printed; other: the check itself failed.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./build-env.sh
build_mon || exit 3
exec ./target/debug/mon "$@"
