#!/bin/bash
# builds the extractor into $1
set -e
clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$(dirname "$0")/extract.cpp" -o "$1" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
