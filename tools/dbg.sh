#!/bin/bash
# dbg.sh SRC REPLAY: backtrace of a replayed failure
d=$(dirname "$0")/..
g++ -g -O0 -std=c++14 -w -fsanitize=address -I${VERIF_REPO:-/repo}/include -I$d/harness $d/harness/$1.cpp $d/harness/pbt.cpp ${VERIF_REPO:-/repo}/src/walnut/*.cpp $3 -lgmpxx -lgmp -o /tmp/dbg_$1 || exit 1
ASAN_OPTIONS=detect_leaks=0:abort_on_error=1 gdb -batch -ex "set follow-fork-mode child" -ex "run" -ex bt --args /tmp/dbg_$1 --replay $2 2>&1 | grep -E "^#|SIG" | cut -c1-220
