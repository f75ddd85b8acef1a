#!/bin/bash
# Builds the symbolic executor into $1 (directory).
set -e
out=$1; here=$(cd "$(dirname "$0")" && pwd); mkdir -p "$out"
g++ -O2 -std=c++20 -w -c "$here/expr.cpp" -o "$out/expr.o" & a=$!
g++ -O3 -std=c++20 -w -c "$here/exec.cpp" -o "$out/exec.o" & b=$!
g++ -O1 -std=c++20 -w -I/usr/lib/llvm-20/include -fno-rtti -c "$here/loader.cpp" -o "$out/loader.o" & c=$!
wait $a && wait $b && wait $c
g++ "$out/expr.o" "$out/exec.o" "$out/loader.o" -o "$out/symex.tmp" -L/usr/lib/llvm-20/lib -Wl,-rpath,/usr/lib/llvm-20/lib -lLLVM-20 -lz3 -lpthread
mv "$out/symex.tmp" "$out/symex"
