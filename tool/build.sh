#!/bin/bash
# Builds the exporter (libTooling, clang 18) from the committed source.
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18
mkdir -p ../build
if [ ../build/dfx -nt dfx.cpp ]; then exit 0; fi
clang++ -std=c++17 -O1 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
  -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS dfx.cpp -o ../build/dfx.tmp \
  $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
mv ../build/dfx.tmp ../build/dfx
