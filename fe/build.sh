#!/bin/bash
# Builds the extraction front end (links the installed clang 18 libraries).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
src=cxxfe.cc
sum=$(cat cxxfe.cc build.sh | sha256sum | cut -c1-16)
if [ -x ../build/cxxfe ] && [ "$(cat ../build/cxxfe.sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
tmp=../build/cxxfe.$$
g++ -O1 -w -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') cxxfe.cc -o $tmp \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
mv $tmp ../build/cxxfe
echo $sum > ../build/cxxfe.sum
