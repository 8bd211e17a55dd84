#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/lvsym).
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/build/lvsym}
mkdir -p "$(dirname "$OUT")"
CXXF="-O2 -std=c++17 -fexceptions $(llvm-config-18 --cppflags) -I."
D=$(mktemp -d "$(dirname "$OUT")/obj.XXXX")
g++ $CXXF -frounding-math -c expr.cpp -o $D/expr.o &
g++ $CXXF -Wno-unused-parameter -c lvsym.cpp -o $D/lvsym.o
wait
g++ $D/expr.o $D/lvsym.o -o "$OUT.tmp" $(llvm-config-18 --ldflags --libs core irreader bitreader support demangle 2>/dev/null) -lz3
mv "$OUT.tmp" "$OUT"
rm -r "$D"
