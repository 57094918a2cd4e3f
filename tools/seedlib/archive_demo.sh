#!/bin/bash
# Builds and runs demo.cpp against the sources in the current directory (/repo).
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++20 -w -g -fsanitize=address -Isrc -I. -Iother/argparse/include -Iother/loguru/include -I"$d/shim" -I"$d" "$d/demo.cpp" \
    src/hzip_storage/archive/archive.cpp src/hzip_core/blob/blob.cpp src/hzip_core/utils/semaphore.cpp \
    other/loguru/src/loguru.cpp -lpthread -ldl -lcrypto -o "$t/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo" "$t"
