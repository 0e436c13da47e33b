#!/bin/bash
# builds the symbolic executor into /verif/build/symx (or $1)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f "$Z3D/include/z3.h" ] && [ -f "$Z3D/lib/libz3.so" ]; then ZI="-I$Z3D/include"; ZL="$Z3D/lib/libz3.so -Wl,-rpath,$Z3D/lib"; else ZI=""; ZL="-lz3"; fi
src=("$here"/symx.cc "$here"/*.inc)
if [ -x "$out/symx" ]; then
  new=0; for f in "${src[@]}"; do [ "$f" -nt "$out/symx" ] && new=1; done
  [ $new = 0 ] && exit 0
fi
g++ -std=c++17 -O2 -frounding-math -fexceptions -w $(llvm-config-18 --cppflags) $ZI "$here/symx.cc" -o "$out/symx.tmp.$$" \
  -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lpthread
mv "$out/symx.tmp.$$" "$out/symx"
