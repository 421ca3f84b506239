#!/bin/bash
# usage: ast.sh REPO OUTDIR : dump the clang JSON ASTs of the library's code
set -u
here=$(dirname "$(readlink -f "$0")"); repo=$1; out=$2
mkdir -p "$out/lc/smart_dnn"
for d in "$repo"/smart_dnn/*/; do n=$(basename "$d"); l=${n,,}; [ "$n" = "$l" ] || ln -sfn "$d" "$out/lc/smart_dnn/$l"; done
INC="algorithm cassert cmath functional iostream limits memory numeric optional sstream stdexcept string vector tuple fstream unordered_map random iomanip typeinfo cstdint utility"
flags="-std=c++17 -fsyntax-only -fopenmp -w"
for i in $INC; do flags="$flags -include $i"; done
for f in smart_dnn Shape RandomEngine; do
  clang++ $flags -I"$repo" -I"$out/lc" -Xclang -ast-dump=json -Xclang -ast-dump-filter=$f "$here/tu.cpp" > "$out/$f.json" 2> "$out/$f.err" &
done
wait
