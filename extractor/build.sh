#!/bin/bash
# Builds the extractor into /verif/build/kx (offline; clang 18 development files).
set -e -o pipefail
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/kx}
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt "$here/kx.cpp" ] && [ "$out" -nt "$here/build.sh" ]; then exit 0; fi
L=/usr/lib/llvm-18/lib
/usr/bin/clang++-18 -O2 -fno-exceptions -std=c++17 -w -I/usr/lib/llvm-18/include \
    -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$here/kx.cpp" -o "$out.tmp" $L/libclang-cpp.so.18.1 $L/libLLVM.so.18.1 -Wl,-rpath,$L
mv "$out.tmp" "$out"
