#!/bin/bash
# build.sh OUTDIR: the Python module from /repo's working tree (bindings and library), instrumented, and the simulator's run-time
set -e
OUT=$1; HERE=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}; PY=/opt/vp/venv/bin/python
mkdir -p "$OUT/a/b" "$OUT/include/public/bigintegercpp"; rm -f "$OUT"/*.so "$OUT"/*.o "$OUT"/symbols
echo '#pragma once
static constexpr auto BIGINTEGERCPP_VERSION = "0";' > "$OUT/include/public/bigintegercpp/version.h"
PYINC=$($PY -c 'import sysconfig;print(sysconfig.get_paths()["include"])'); PBINC=$($PY -c 'import pybind11;print(pybind11.get_include())')
CXX=/usr/bin/g++
FLAGS="-std=c++17 -O1 -g1 -fPIC -fvisibility=hidden -w"
INSTR="-finstrument-functions -finstrument-functions-exclude-file-list=/usr/include,/usr/lib -fsanitize-coverage=trace-pc"
INC="-I$REPO/include/public -I$REPO/include -I$OUT/a/b -I$OUT/include/public -I$PYINC -I$PBINC"
pids=()
$CXX -std=c++17 -O2 -g1 -fPIC -shared -w -I$PYINC "$HERE/rt.cpp" -o "$OUT/_simrt.so" & pids+=($!)
$CXX $FLAGS -c "$HERE/wrap.cpp" -o "$OUT/wrap.o" & pids+=($!)
$CXX $FLAGS $INSTR $INC -c "$REPO/bindings/python/python-bindings.cpp" -o "$OUT/bindings.o" & pids+=($!)
O=(); i=0
for f in $(find "$REPO/src" -name '*.cpp' | sort); do
  i=$((i+1)); O+=("$OUT/u$i.o"); $CXX $FLAGS $INSTR $INC -c "$f" -o "$OUT/u$i.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
$CXX -shared -o "$OUT/pybiginteger.so" "$OUT/bindings.o" "${O[@]}" "$OUT/wrap.o" -Wl,--wrap=PyEval_SaveThread -Wl,--wrap=PyEval_RestoreThread
nm "$OUT/pybiginteger.so" | awk '$2 ~ /^[tTwW]$/ {print $1, $3}' > "$OUT/symbols"
