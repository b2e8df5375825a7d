#!/bin/bash
# Builds the simulator once from the committed files (every check rebuilds it from /repo's current tree).
cd "$(dirname "$0")" && exec bash sim/build.sh "$PWD/build" plain
