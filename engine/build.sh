#!/bin/bash
# builds the symbolic executor into /verif/build
set -e
cd "$(dirname "$0")"; B=../build; mkdir -p $B
if [ -x $B/vpsym ] && [ -z "$(find . -newer $B/vpsym -name '*.[chi]*')" ]; then exit 0; fi
L=/usr/lib/llvm-18/bin/llvm-config
clang++-18 -O2 -std=c++17 -w $($L --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions vpsym.cpp -o $B/vpsym.tmp $($L --ldflags) -lLLVM-18 -lgmpxx -lgmp -lpthread
mv $B/vpsym.tmp $B/vpsym
