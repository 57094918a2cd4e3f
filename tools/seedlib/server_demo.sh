#!/bin/bash
# Builds and runs demo.cpp against the sources in the current directory (/repo).
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
inc="-std=c++20 -w -g -Isrc -I. -Iother/argparse/include -Iother/loguru/include -I$d/shim -I$d"
pids=()
for f in $(find src -name '*.cpp' ! -name main.cpp ! -path '*opencl*') other/loguru/src/loguru.cpp; do
    clang++-18 $inc -c "$f" -o "$t/$(echo "$f" | tr / _).o" & pids+=($!)
done
clang++-18 $inc -c "$d/demo.cpp" -o "$t/demo.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p" || exit 2; done
clang++-18 "$t"/*.o -lpthread -ldl -lcrypto -lpng -ljpeg -o "$t/demo" || exit 2
timeout 200 "$t/demo" "$t"
