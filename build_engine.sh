#!/bin/bash
# Builds bin/wsym (the symbolic executor) if it is missing or older than its source.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
exec 9>"$here/bin/.lock"
flock 9
if [ -x "$here/bin/wsym" ] && [ "$here/bin/wsym" -nt "$here/engine/wsym.cpp" ]; then exit 0; fi
g++ -O2 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/engine/wsym.cpp" -o "$here/bin/wsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$here/bin/wsym.tmp" "$here/bin/wsym"
