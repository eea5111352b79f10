#!/bin/bash
# check.sh PROPERTY: rebuild from /repo, then search. Exit 0 held, 1 violated
# (with a VIOLATION line), anything else: error of the check.
cd "$(dirname "$0")" || exit 2
race=
case "$1" in C15|C18) race=race ;; esac
./build.sh $race || { echo "build failed" >&2; exit 2; }
exec ./bin/semsim check "$1"
