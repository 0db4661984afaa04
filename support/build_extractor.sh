#!/bin/bash
# Builds the libTooling extractor into $1 (default: /verif/.cache/vxtract)
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
out="${1:-$here/.cache/vxtract}"
mkdir -p "$(dirname "$out")"
tmp="$out.tmp.$$"
clang++ -O1 -w -std=c++17 -fno-rtti $(llvm-config-18 --cppflags) "$here/extractor/vxtract.cpp" -o "$tmp" \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv -f "$tmp" "$out"
