#!/bin/bash
# usage: build.sh OUT  -- compiles the symbolic executor
set -e
cd "$(dirname "$0")"
OUT=${1:-/tmp/px}
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXXF="-std=c++17 -O2 -fno-rtti -w $(llvm-config-18 --cppflags) -I$Z3/include"
mkdir -p "$OUT"
for f in expr solver px; do ( g++ $CXXF -c $f.cpp -o "$OUT/$f.o" || echo FAIL > "$OUT/fail" ) & done
wait
[ ! -e "$OUT/fail" ] || { rm -f "$OUT/fail"; exit 1; }
gcc -O1 -rdynamic -o "$OUT/replay" replay.c -ldl
g++ "$OUT"/{expr,solver,px}.o -o "$OUT/px" $(llvm-config-18 --ldflags) -lLLVM-18 -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -lpthread
