#!/bin/bash
# Builds the engine into $1 (default /verif/.build/engine)
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/.build/engine}
mkdir -p "$OUT"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
for f in expr solver vm exec intr main; do
  if [ ! -f "$OUT/$f.o" ] || [ -n "$(find . -newer "$OUT/$f.o" \( -name "$f.cpp" -o -name '*.h' \))" ]; then
    g++ -O2 -std=c++17 -I$Z3/include -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c $f.cpp -o "$OUT/$f.o" &
  fi
done
for j in $(jobs -p); do wait $j || exit 1; done
g++ -o "$OUT/vsym" "$OUT"/{expr,solver,vm,exec,intr,main}.o -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -L/usr/lib/llvm-18/lib -lLLVM-18 -lpthread
