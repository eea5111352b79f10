#!/bin/bash
# selftest.sh [COUNT]: the simulator must be deterministic. Executes the first
# COUNT runs of every profile with 1, 3 and 8 workers and compares their event
# hashes; no run may show a wrong answer.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
n=${1:-60} bad=0
for p in $(seq -f "C%02g" 1 26); do
  a=$(SEMSIM_WORKERS=1 ./bin/semsim hash "$p" "$n")
  b=$(SEMSIM_WORKERS=3 GOGC=20 ./bin/semsim hash "$p" "$n")
  c=$(SEMSIM_WORKERS=8 ./bin/semsim hash "$p" "$n")
  if [ "$a" = "$b" ] && [ "$b" = "$c" ] && [ "$(echo "$a" | wc -l)" = 1 ]; then echo "same $a"; else echo "DIFFERENT $p"; echo "$a"; echo "$b"; echo "$c"; bad=1; fi
done
# A replay file must reproduce what it shows, in the very same execution.
for f in replays/*.json; do
  [ -e "$f" ] || continue
  out=$(./bin/semsim replay "$f")
  echo "$f: $(echo "$out" | grep -a 'event hash') $(echo "$out" | grep -ac VIOLATION)"
done
exit $bad
