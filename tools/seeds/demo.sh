#!/bin/bash
# Builds the library of the current directory with demo.cpp in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
FLAGS="-std=c++17 -O1 -g -include array -I. -I$here -pthread @FLAGS@"
export T FLAGS
ls goost/*/*.cpp | xargs -P 8 -I{} sh -c 'g++ $FLAGS -c {} -o "$T/$(echo {} | tr / _).o"' || exit 3
g++ $FLAGS "$here/demo.cpp" "$T"/*.o -o "$T/demo" || exit 3
cd "$T" || exit 3
@ENV@ timeout 250 ./demo
