#!/bin/bash
# build.sh REPO OUT : build the concurrent simulator from REPO's working tree
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd); U=$HERE/../usim
mkdir -p "$OUT"
WR="mmap mmap64 openat openat64 pread pread64 fopen fopen64 getentropy munmap mprotect madvise mlock mlock2 munlock open open64 read close getrandom sched_getaffinity sched_setaffinity sysconf pthread_create pthread_join pthread_detach pthread_attr_init pthread_attr_destroy sched_yield pthread_once pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock"
WRAP=""; for w in $WR; do WRAP="$WRAP -Wl,--wrap=$w"; done
D="-DJENT_CONF_ENABLE_INTERNAL_TIMER -DJENT_CONF_ENABLE_MOCK_TIMER -DJENT_PTHREAD"
LF="-g -O2 -U__OPTIMIZE__ -fsanitize=thread --param tsan-instrument-func-entry-exit=0 $D -I$REPO -I$REPO/src -I$REPO/arch -fwrapv -w"
pids=()
for f in "$REPO"/src/*.c "$REPO"/arch/*.c; do o="$OUT/l_$(basename "$f" .c).o"; gcc $LF -c "$f" -o "$o" & pids+=($!); done
for f in keccak plan world json main; do gcc -g -O2 -Wall -Wextra -Wno-unused-parameter -DV_CON $D -I"$U" -I"$REPO" -I"$REPO/arch" -c "$U/$f.c" -o "$OUT/s_$f.o" & pids+=($!); done
for f in sched con cgen; do gcc -g -O2 -Wall -Wextra -Wno-unused-parameter $D -I"$U" -I"$REPO" -I"$REPO/arch" -c "$HERE/$f.c" -o "$OUT/c_$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
gcc -o "$OUT/csim" "$OUT"/l_*.o "$OUT"/s_*.o "$OUT"/c_*.o $WRAP -lpthread
