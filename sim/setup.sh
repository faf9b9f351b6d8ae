#!/bin/bash
# Warm-up only: every check builds what it needs from /repo's current tree by itself.
cd "$(dirname "$0")/.." && mkdir -p build && g++ --version | head -1 && python3 -c 'import json' && exec bash sim/build.sh build C01
