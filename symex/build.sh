#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
sum=$(cat "$here"/*.cpp "$here"/*.h "$here"/*.inc "$here/build.sh" | sha256sum | cut -d' ' -f1)
if [ -x "$out/symex" ] && [ "$(cat "$out/symex.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
cd "$here"
o=$(mktemp -d "$out/obj.XXXXXX")
trap 'rm -r "$o"' EXIT
g++ -std=c++17 -O1 -fno-rtti -w -c translate.cpp -o $o/translate.o $(llvm-config-18 --cppflags) & p1=$!
g++ -std=c++17 -O2 -w -c exec.cpp -o $o/exec.o & p2=$!
g++ -std=c++17 -O2 -w -c expr.cpp -o $o/expr.o & p3=$!
g++ -std=c++17 -O2 -w -c solver.cpp -o $o/solver.o & p4=$!
wait $p1; wait $p2; wait $p3; wait $p4
g++ -o $o/symex $o/*.o $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv $o/symex "$out/symex"
echo "$sum" > "$out/symex.sum"
