#!/bin/bash
# builds /verif/build/symx
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}
mkdir -p "$out"
z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
tmp=$(mktemp "$out/symx.XXXXXX")
clang++-18 -std=c++20 -O2 -w -fexceptions -I"$z/include" $(llvm-config-18 --cppflags | sed 's/-I/-isystem /g') "$here/symx.cpp" -o "$tmp" \
  $(llvm-config-18 --ldflags) -lLLVM-18 -L"$z/lib" -lz3 -Wl,-rpath,"$z/lib" -lgmpxx -lgmp
chmod 755 "$tmp"; mv -f "$tmp" "$out/symx"
