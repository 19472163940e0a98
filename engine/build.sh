#!/bin/bash
# Builds the engine into /verif/build.
set -e
cd "$(dirname "$0")"
OUT=../build; mkdir -p $OUT
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
NEW=$(cat *.h *.cpp build.sh | sha256sum | cut -d' ' -f1)
if [ -x $OUT/rsym ] && [ "$(cat $OUT/rsym.hash 2>/dev/null)" = "$NEW" ]; then exit 0; fi
exec 9>$OUT/.lock; flock 9
if [ -x $OUT/rsym ] && [ "$(cat $OUT/rsym.hash 2>/dev/null)" = "$NEW" ]; then exit 0; fi
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -I$Z3/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  rsym.cpp -o $OUT/rsym.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -l:libz3.so.5.3 -Wl,-rpath,$Z3/lib
mv $OUT/rsym.tmp $OUT/rsym; echo $NEW > $OUT/rsym.hash
