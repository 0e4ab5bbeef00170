#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/engine/build).
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="${1:-$here/build}"; mkdir -p "$out"
stamp="$(cat "$here"/*.cpp "$here"/*.h "$here"/build.sh | sha256sum | cut -d' ' -f1)"
[ -x "$out/rsym" ] && [ "$(cat "$out/stamp" 2>/dev/null)" = "$stamp" ] && exit 0
tmp="$(mktemp -d "$out/tmp.XXXXXX")"
CXX="g++ -std=c++17 -O2 -w"
$CXX -c "$here/expr.cpp" -o "$tmp/expr.o" & p1=$!
$CXX -O1 $(llvm-config-18 --cppflags) -c "$here/load.cpp" -o "$tmp/load.o" & p2=$!
$CXX -c "$here/rsym.cpp" -o "$tmp/rsym.o" & p3=$!
wait $p1; wait $p2; wait $p3
$CXX "$tmp"/*.o -o "$tmp/rsym" $(llvm-config-18 --ldflags --libs) -lz3
mv "$tmp/rsym" "$out/rsym"; echo "$stamp" > "$out/stamp"; rm -f "$tmp"/*.o; rmdir "$tmp"
