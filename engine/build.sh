#!/bin/bash
# Build symx (and the runtime bitcode) into $1 (default /verif/build/engine)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build/engine}; mkdir -p "$O"
CXX="g++ -O2 -g0 -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//; s/-std=[^ ]*//') -std=c++17"
pids=()
for f in expr interp ext main; do
  if [ ! -e "$O/$f.o" ] || [ "$D/$f.cpp" -nt "$O/$f.o" ] || [ "$D/sx.h" -nt "$O/$f.o" ] || [ "$D/expr.h" -nt "$O/$f.o" ]; then
    opt=""; [ $f = ext -o $f = main ] && opt="-O1"
    $CXX $opt -c "$D/$f.cpp" -o "$O/$f.o.tmp.$$" && mv "$O/$f.o.tmp.$$" "$O/$f.o" & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
if [ ! -e "$O/symx" ] || [ ${#pids[@]} -gt 0 ]; then
g++ -o "$O/symx.tmp.$$" "$O"/expr.o "$O"/interp.o "$O"/ext.o "$O"/main.o $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -lpthread && mv "$O/symx.tmp.$$" "$O/symx"
fi
