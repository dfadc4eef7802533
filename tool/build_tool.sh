#!/bin/bash
# Builds the libTooling extractor into /verif/build (idempotent).
set -e
H="$(cd "$(dirname "$0")" && pwd)"; B="$H/../build"; mkdir -p "$B"
if [ ! -x "$B/dxtract" ] || [ "$H/dxtract.cpp" -nt "$B/dxtract" ]; then
  T="$B/dxtract.$$"
  clang++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include "$H/dxtract.cpp" -o "$T" \
    /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
  mv "$T" "$B/dxtract"
fi
