#!/bin/sh
# Builds the symbolic executor into /verif/build (setup_cmd).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
FLAGS="-O2 -std=c++17 -w $(llvm-config-18 --cppflags)"
g++ $FLAGS -c expr.cpp -o ../build/expr.o &
g++ $FLAGS -c vpsym.cpp -o ../build/vpsym.o
wait
g++ -o ../build/vpsym.tmp ../build/expr.o ../build/vpsym.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv ../build/vpsym.tmp ../build/vpsym
