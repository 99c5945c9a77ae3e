#!/bin/bash
# builds the IR dumper used by every check
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p $V/build
if [ ! -x $V/build/irdump ] || [ $V/engine/irdump.cpp -nt $V/build/irdump ]; then
  T=$(mktemp $V/build/irdump.XXXXXX)
  g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include $V/engine/irdump.cpp -o $T -L/usr/lib/llvm-18/lib -lLLVM-18
  chmod 755 $T; mv -f $T $V/build/irdump
fi
