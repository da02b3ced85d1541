#!/bin/bash
# builds the engine into $1 (default /verif/.cache/bin/msx)
set -e
cd "$(dirname "$0")"
OUT=${1:-../.cache/bin/msx}
mkdir -p "$(dirname "$OUT")"
H=$(cat msx.cpp builtins.inc expr.h solver.h | sha256sum | cut -c1-16)
if [ -x "$OUT" ] && [ "$(cat "$OUT.hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
LLVM=/usr/lib/llvm-18
TMP=$OUT.$$.tmp
g++ -std=c++17 -O2 -g0 -fno-rtti -w -I$LLVM/include -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE \
    msx.cpp -o "$TMP" -L$LLVM/lib -lLLVM-18 -lz3
mv "$TMP" "$OUT"
echo "$H" > "$OUT.hash"
