#!/bin/bash
# Run in the repository after its build: compiles demo.cpp against the built core library and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
s=$PWD/core/src
g++ -std=c++23 -O0 -DNDEBUG -DHYDROBRICKS_MAJOR_VERSION=0 -DHYDROBRICKS_MINOR_VERSION=8 -DHYDROBRICKS_PATCH_VERSION=6 \
    -I"$s/base" -I"$s/actions" -I"$s/bricks" -I"$s/containers" -I"$s/fluxes" -I"$s/processes" -I"$s/spatial" \
    -isystem /usr/include/eigen3 "$d/demo.cpp" "$PWD/_build/core/src/libcore.a" -lnetcdf -lyaml-cpp -o "$t/demo" || exit 2
cd "$t" && ./demo
