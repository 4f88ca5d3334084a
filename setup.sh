#!/bin/bash
# Warms the build cache; every check builds again from /repo by itself.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence replays
exec ./check WARM
