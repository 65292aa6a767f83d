#!/bin/bash
# Builds the exporter.  usage: build.sh OUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/astx}
L=/usr/lib/llvm-18/lib
cpp=$(ls $L/libclang-cpp.so.18* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
llvm=$(ls $L/libLLVM.so.18* $L/libLLVM-18.so* /usr/lib/x86_64-linux-gnu/libLLVM.so.18* 2>/dev/null | head -1)
clang++ -O1 -fno-rtti -std=c++17 -I/usr/lib/llvm-18/include "$here/astx.cpp" -o "$out.tmp" "$cpp" "$llvm" -Wl,-rpath,$L
mv "$out.tmp" "$out"
