#!/bin/bash
# builds the engine: build.sh OUTDIR
set -e
cd "$(dirname "$0")"; O=${1:-../build}; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
L="-fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
h=$(cat *.cpp *.hpp build.sh | sha256sum | cut -c1-16)
if [ -x "$O/vsym" ] && [ "$(cat "$O/vsym.hash" 2>/dev/null)" = "$h" ]; then exit 0; fi
pids=()
for f in ir link; do g++ -std=c++17 -O1 $L -c $f.cpp -o $O/$f.o & pids+=($!); done
for f in exec builtins solver fs selftest; do g++ -std=c++17 -O2 -I$Z/include -c $f.cpp -o $O/$f.o & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ $O/ir.o $O/link.o $O/exec.o $O/builtins.o $O/solver.o $O/fs.o $O/selftest.o -o $O/vsym -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib
echo $h > $O/vsym.hash; rm -f $O/*.o
