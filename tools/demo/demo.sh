#!/bin/bash
# Compiles the demonstration beside this script against the tree in the
# current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O0 -w -I include -I _build/include "$here/demo.cpp" -o "$out/demo" || exit 3
timeout 200 "$out/demo" > "$out/log"
code=$?
tail -5 "$out/log"
exit $code
