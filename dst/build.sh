#!/bin/bash
# Builds the preload shim into dst/build/ (ignored by git); atomic, so that concurrent checks may race.
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -f build/libdst.so ] || [ shim.c -nt build/libdst.so ]; then
  gcc -O1 -g -shared -fPIC -Wall -Wno-nonnull-compare -Wno-attributes -o build/libdst.$$.so shim.c -ldl -lpthread
  mv -f build/libdst.$$.so build/libdst.so
fi
