#!/bin/bash
# developer helper: pb.sh <variant> <ID> <args...>  (build one property and run it directly)
set -e
v=$1; id=$2; shift 2
cd "$(dirname "$0")"
python3 run.py --build "$v" "$id" > build/pb.log 2>&1 || { tail -n 60 build/pb.log; exit 3; }
TMPD=${TMPD:-build/tmp}; mkdir -p $TMPD
OMP_NUM_THREADS=1 ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 UBSAN_OPTIONS=print_stacktrace=1 build/$v/pbt_$id $id --jobs=8 --tmp=$TMPD "$@"
