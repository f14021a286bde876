#!/bin/bash
# Builds demo.cpp against /repo's headers and library (cwd: /repo) and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -w -I"$d" -I include -I src "$d/demo.cpp" _build/src/libwsrep-lib.a -Wl,--unresolved-symbols=ignore-all -lpthread -ldl -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
