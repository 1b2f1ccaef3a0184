#!/bin/bash
# Builds the extractor into /verif/build/hrmx (no network, LLVM 18 development files only).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
src="$here/hrmx.cpp"
if [ -x "$out/hrmx" ] && [ "$out/hrmx" -nt "$src" ]; then exit 0; fi
L=/usr/lib/llvm-18
g++ -std=c++17 -O1 -fno-rtti -I$L/include "$src" -o "$out/hrmx.$$" \
    $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
mv "$out/hrmx.$$" "$out/hrmx"
