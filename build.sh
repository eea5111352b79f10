#!/bin/bash
# build.sh [race]: builds the simulator together with semnet from /repo's
# current working tree, and with "race" a second one with the race detector.
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p bin
cd sim
go build -o ../bin/semsim.$$ .
mv ../bin/semsim.$$ ../bin/semsim
if [ "${1:-}" = race ]; then
  go build -race -o ../bin/semsim-race.$$ .
  mv ../bin/semsim-race.$$ ../bin/semsim-race
fi
