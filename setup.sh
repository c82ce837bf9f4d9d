#!/bin/bash
# Builds all explorers once, so that a missing tool shows up before the checks.
set -e
cd "$(dirname "$0")"
for c in mc mx vm; do
    tools/build.sh "$c"
done
