#!/bin/bash
# builds the symbolic executor into /verif/build (git-ignored)
set -e
cd "$(dirname "$0")"; mkdir -p ../build
if [ ../build/symex -nt main.cpp ] && [ ../build/symex -nt exec.h ] && [ ../build/symex -nt expr.h ] && [ ../build/symex -nt module.h ] && [ ../build/symex -nt interp.inc ] && [ ../build/symex -nt builtins.inc ] && [ ../build/symex -nt oblig.inc ]; then exit 0; fi
clang++-18 -O2 -std=c++17 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS main.cpp -o ../build/symex.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv ../build/symex.tmp ../build/symex
