#!/bin/bash
# Builds demo.cpp with the sources named on its line "// sources: ..." from the current directory (/repo), and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
src=$(sed -n 's,^// sources: *,,p' "$d/demo.cpp")
clang++-18 -std=c++20 -w -g -fsanitize=address -Isrc -I. -Iother/argparse/include -Iother/loguru/include -I"$d/shim" -I"$d" "$d/demo.cpp" \
    $src -lpthread -ldl -lcrypto -o "$t/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$t/demo" "$t"
