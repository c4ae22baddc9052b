#!/bin/bash
# Builds the monitors once so that checks only rebuild what changed.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./build-env.sh
build_mon
