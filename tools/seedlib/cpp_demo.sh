#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
b=$PWD/_build
g++ -std=gnu++20 -O1 -DFMT_SHARED -DLINUX -DUSE_PTHREADS -DHAVE_EMBREE4 -I"$PWD/include" "$d/demo.cc" -o "$t/demo" \
  "$b/light/libliblight.a" "$b/vis/liblibvis.a" "$b/common/libcommon.a" -ltbb -ltbbmalloc -lfmt -lembree4 -no-pie >"$t/log" 2>&1 || { tail -20 "$t/log"; exit 8; }
cd "$t" && ./demo
