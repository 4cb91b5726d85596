#!/bin/bash
# builds the engine and the library models from the committed files
set -e
cd "$(dirname "$0")"
mkdir -p build
bash engine/build.sh "$PWD/build"
/usr/lib/llvm-18/bin/clang++ -std=c++17 -O1 -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w -emit-llvm -c lib/support.cpp -o build/support.bc
