#!/bin/bash
# Builds the exporter (clang 18 libTooling) into /verif/build. Offline.
set -eu
cd "$(dirname "$0")"
mkdir -p build evidence
h=$(sha256sum tool/export.cc | cut -c1-16)
if [ ! -x build/export ] || [ "$(cat build/export.hash 2>/dev/null)" != "$h" ]; then
  clang++-18 $(llvm-config-18 --cxxflags) -std=c++17 -fno-rtti -O1 tool/export.cc \
    -o build/export.tmp.$$ -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
  mv build/export.tmp.$$ build/export
  echo "$h" > build/export.hash
fi
