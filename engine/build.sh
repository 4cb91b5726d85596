#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}; mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -O2 -std=c++17 -w -fexceptions -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I$Z/include "$here/ksym.cpp" -o "$out/ksym.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lgmpxx -lgmp
mv "$out/ksym.tmp.$$" "$out/ksym"
g++ -O1 -std=c++17 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/instr.cpp" -o "$out/instr.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out/instr.tmp.$$" "$out/instr"
