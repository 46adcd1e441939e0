#!/bin/bash
# Builds everything the checks need; offline.
cd "$(dirname "$0")" || exit 2
./build.sh release
