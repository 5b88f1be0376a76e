#!/bin/bash
# builds the symbolic executor into /verif/build (git-ignored)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p $B
S=$(cat $D/*.cpp $D/*.h $D/*.inc | sha256sum | cut -c1-16)
if [ -x $B/symex ] && [ "$(cat $B/symex.id 2>/dev/null)" = "$S" ]; then exit 0; fi
clang++-18 -std=c++17 -O2 -w -fexceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c $D/real.cpp -o $B/real.$$.o &
clang++-18 -std=c++17 -O2 -w -fexceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c $D/symex.cpp -o $B/symex.$$.o
wait
clang++-18 $B/symex.$$.o $B/real.$$.o -o $B/symex.$$ -rdynamic -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lgmpxx -lgmp -ldl
mv $B/symex.$$ $B/symex; echo $S > $B/symex.id; rm -f $B/symex.$$.o $B/real.$$.o
