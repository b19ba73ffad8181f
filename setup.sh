#!/bin/bash
# Builds the harness in both configurations.
set -u
cd "$(dirname "$0")" || exit 2
export VH_ROOT="$PWD"
. ./build.sh || exit 2
build_default || exit 2
build_threadsafe || exit 2
