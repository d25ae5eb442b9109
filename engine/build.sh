#!/bin/bash
# builds the symbolic executor: build.sh OUT
cd "$(dirname "$0")" && g++ -O2 $SYMX_CXX -std=c++17 -fno-strict-aliasing $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++17//') -fexceptions symx.cpp -o "$1" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
