#!/bin/bash
# Builds the LLVM IR exporter of the contract verifier (irvc) into build/.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
clang++-18 -O1 -std=c++17 -I/usr/lib/llvm-18/include irvc/irx.cpp -o build/irx.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
mv build/irx.tmp build/irx
