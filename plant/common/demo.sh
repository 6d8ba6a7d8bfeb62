#!/bin/bash
# Builds demo.cpp with simfil's sources from the current directory and runs it: exits 0 if the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")
trap 'rm -rf "$work"' EXIT
CXX=g++; FLAGS=""; SOURCES="src/*.cpp src/model/*.cpp"; LIMIT=60; RUNS=1
[ -f "$here/config" ] && . "$here/config"
base="-std=c++20 -g -O1 -w -pthread -DSIMFIL_WITH_MODEL_JSON=1 -DSIMFIL_NO_VERSION_HEADER -I$repo/include -I$repo/src -I$repo/repl -I$here -I$here/stubs $FLAGS"
cd "$repo" || exit 2
printf '%s\n' "$here/demo.cpp" $(ls $SOURCES 2>/dev/null) | xargs -P 8 -I{} sh -c 'o='"$work"'/$(echo "$1" | tr / _).o; '"$CXX $base"' -c "$1" -o "$o" || exit 255' _ {} >"$work/log" 2>&1 || { tail -20 "$work/log"; echo "demo: does not compile"; exit 3; }
$CXX $base "$work"/*.o -lfmt -o "$work/demo" >"$work/log" 2>&1 || { tail -20 "$work/log"; echo "demo: does not link"; exit 3; }
mkdir "$work/scratch"; cd "$work/scratch" || exit 2
for i in $(seq $RUNS); do
    timeout -k 5 "$LIMIT" "$work/demo" >"$work/out" 2>&1
    rc=$?
    if [ $rc -ne 0 ]; then tail -30 "$work/out"; echo "demo: exit code $rc"; exit 1; fi
done
tail -3 "$work/out"
exit 0
