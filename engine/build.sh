#!/bin/bash
# Builds the symbolic executor (idempotent; cached under /verif/.build).
cd "$(dirname "$0")" || exit 2
B=../.build; mkdir -p $B
H=$(cat *.cc *.h *.inc build.sh | sha256sum | cut -c1-16)
[ -x $B/symx-$H ] && { echo $B/symx-$H >/dev/null; ln -sf symx-$H $B/symx; exit 0; }
exec 9>$B/lock; flock 9
[ -x $B/symx-$H ] && { ln -sf symx-$H $B/symx; exit 0; }
set -e
F="-O2 -g1 -std=c++17 -fexceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
g++ $F -w -c expr.cc -o $B/expr-$H.o &
g++ $F -w -c symx.cc -o $B/symxo-$H.o
wait
g++ $B/expr-$H.o $B/symxo-$H.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o $B/symx-$H.tmp
mv $B/symx-$H.tmp $B/symx-$H
rm -f $B/expr-$H.o $B/symxo-$H.o
ln -sf symx-$H $B/symx
