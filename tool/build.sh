#!/bin/bash
# Builds the AST extractor into /verif/build (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
if [ -x "$out/extract" ] && [ "$out/extract" -nt "$here/extract.cpp" ]; then exit 0; fi
L=/usr/lib/llvm-18
tmp=$(mktemp "$out/extract.XXXXXX")
clang++ -O1 $($L/bin/llvm-config --cxxflags) -fno-rtti -w "$here/extract.cpp" -o "$tmp" -L$L/lib $L/lib/libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
mv "$tmp" "$out/extract"
