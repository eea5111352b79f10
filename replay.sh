#!/bin/bash
# replay.sh FILE: rebuild from /repo and execute a replay file again.
cd "$(dirname "$0")" || exit 2
./build.sh race || { echo "build failed" >&2; exit 2; }
exec ./bin/semsim replay "$1"
