#!/bin/bash
# builds the symbolic engine into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../build}
mkdir -p "$OUT"
LF="-I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=()
for f in expr mem interp models main; do
  ( if [ ! -e "$OUT/$f.o" ] || [ -n "$(find "$D" -name '*.?pp' -newer "$OUT/$f.o" | grep -E "hpp|/$f.cpp")" ]; then g++ -std=c++20 -O2 -w $LF -c "$D/$f.cpp" -o "$OUT/$f.o.$$" && mv "$OUT/$f.o.$$" "$OUT/$f.o"; fi ) &
  pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$OUT/vx.$$" "$OUT"/{expr,mem,interp,models,main}.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lminisat -lz3 -lcvc5
mv "$OUT/vx.$$" "$OUT/vx"
