#!/bin/bash
# Builds demo.cc against the library in /repo/_build and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
L=/usr/lib/x86_64-linux-gnu/android
clang++-18 -std=c++17 -g -O0 FLAGS -I/repo -isystem /usr/include/android -I"$d" "$d/demo.cc" -o "$t/demo" \
  SRCS -L$L -Wl,-rpath,$L -l:libcrypto.so -lprotobuf \
  -labsl_strings -labsl_strings_internal -labsl_time -labsl_time_zone -labsl_hash -labsl_raw_hash_set -labsl_city \
  -labsl_low_level_hash -labsl_bad_optional_access -labsl_int128 -labsl_base -labsl_raw_logging_internal \
  -labsl_throw_delegate -lpthread || exit 98
cd "$t" && timeout 120 ./demo
