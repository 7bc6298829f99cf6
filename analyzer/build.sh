#!/bin/bash
# Build the fact dumper from the committed source (libTooling, clang 18).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
want=$(sha256sum "$here/factdump.cc" | cut -d' ' -f1)
if [ -x "$out/factdump" ] && [ "$(cat "$out/factdump.sha" 2>/dev/null)" = "$want" ]; then exit 0; fi
tmp=$out/factdump.$$
clang++-18 -O2 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/factdump.cc" -o "$tmp" \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$out/factdump"
echo "$want" > "$out/factdump.sha"
