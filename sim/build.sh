#!/bin/bash
# build.sh OUTDIR: the library from /repo's working tree, instrumented, linked with the simulator.
#   sim-assert  assertions on (as the repository's own build)      sim-ndebug  assertions off (release builds)
#   sim-alt     as sim-assert, the program image placed elsewhere  (replicas of C09)
#   sim-gcc     as sim-assert, the library compiled by another compiler, for size
set -e
OUT=$1; HERE=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}
mkdir -p "$OUT"; rm -f "$OUT"/sim-* "$OUT"/*.o
CXX=/usr/bin/clang++; GXX=/usr/bin/g++
INC="-I$REPO/include/public -I$REPO/include"
COMMON="-std=c++17 -g1 -fPIE -w -D_GLIBCXX_EXTERN_TEMPLATE=0"
INSTR="-O1 -fsanitize=thread -fsanitize-coverage=trace-pc"
pids=()
$CXX $COMMON -O2 -fno-builtin-memcmp -fno-builtin-bcmp -fno-threadsafe-statics -c "$HERE/rt.cpp" -o "$OUT/rt.o" & pids+=($!)
$CXX $COMMON -O1 $INC -fno-threadsafe-statics -c "$HERE/model.cpp" -o "$OUT/model.o" & pids+=($!)
$CXX $COMMON -O1 $INC -fno-threadsafe-statics -c "$HERE/sim.cpp" -o "$OUT/sim.o" & pids+=($!)
unit() { # source object flags compiler: a unit of the simulated program; its initialisers run when the simulation says so
  ${4:-$CXX} $COMMON $INSTR $3 $INC -c "$1" -o "$2" && objcopy --rename-section .init_array=sim_init_array "$2"
}
A=(); N=(); G=(); i=0
for f in $(find "$REPO/src" -name '*.cpp' | sort) "$HERE/act.cpp"; do
  i=$((i+1)); A+=("$OUT/a$i.o"); N+=("$OUT/n$i.o"); G+=("$OUT/g$i.o")
  unit "$f" "$OUT/a$i.o" "" & pids+=($!)
  unit "$f" "$OUT/n$i.o" -DNDEBUG & pids+=($!)
  unit "$f" "$OUT/g$i.o" -Os $GXX & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
H="$OUT/sim.o $OUT/model.o $OUT/rt.o"; L="-lgmpxx -lgmp -lpthread -ldl"
$CXX -pie -o "$OUT/sim-assert" "${A[@]}" $H $L &  p1=$!
$CXX -pie -o "$OUT/sim-ndebug" "${N[@]}" $H $L &  p2=$!
$CXX -no-pie -Wl,-Ttext-segment=0x30000000 -o "$OUT/sim-alt" "${A[@]}" $H $L & p3=$!
$CXX -pie -o "$OUT/sim-gcc" "${G[@]}" $H $L & p4=$!
wait $p1; wait $p2; wait $p3; wait $p4
