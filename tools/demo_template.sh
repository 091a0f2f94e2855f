#!/bin/bash
# Compiles demo.cc against /repo's build and runs it: exit 0 if the behaviour
# is right, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
INC="-I/repo -I/repo/_build -isystem /usr/include/eigen3 -isystem /usr/include/lua5.2"
ABSL=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so)
EXTRA=""
if [ -f "$here/ceres_compat.h" ]; then
  M=cartographer/mapping/internal
  for s in $M/3d/scan_matching/ceres_scan_matcher_3d $M/imu_based_pose_extrapolator \
           $M/optimization/ceres_pose $M/optimization/optimization_problem_2d $M/optimization/optimization_problem_3d; do
    o=$work/$(basename $s).o
    g++ -std=c++17 -O1 -DNDEBUG -w -include "$here/ceres_compat.h" $INC -c /repo/$s.cc -o $o & 
    EXTRA="$EXTRA $o"
  done
fi
g++ -std=c++17 -O1 -w -DNDEBUG -I"$here" $INC -c "$here/demo.cc" -o "$work/demo.o" || exit 0
wait
g++ -o "$work/demo" "$work/demo.o" $EXTRA /repo/_build/libcartographer.a $(ls /repo/_build/lib*.a | grep -v libcartographer.a) \
  -Wl,--as-needed -lprotobuf -lceres -lglog -lgflags -llua5.2 -lboost_iostreams -lcairo -lz $ABSL \
  -lpthread -ldl 2>"$work/link.log" || { tail -5 "$work/link.log"; exit 0; }
cd "$work" && timeout 120 ./demo
