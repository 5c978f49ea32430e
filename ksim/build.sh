#!/bin/bash
# build.sh REPO OUT : build the kernel-module simulator from REPO's working tree
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd); U=$HERE/../usim
mkdir -p "$OUT"; rm -rf "${OUT:?}/inc"; mkdir -p "$OUT/inc"
{ grep -hoE '# *include *<(linux|crypto|asm)/[^>]+>' "$REPO"/linux_kernel/*.[ch] "$REPO"/src/*.[ch] "$REPO"/arch/*.[ch] "$REPO"/jitterentropy.h | sed -E 's/.*<([^>]+)>.*/\1/'
  for h in sizes atomic bitops bits build_bug bug cache capability cleanup compat compiler completion cpu cpumask cred delay err errno export fips fs gfp hw_random init io ioctl jiffies kernel kref ktime limits list lockdep math math64 minmax miscdevice mm module moduleparam mutex overflow panic poll printk proc_fs random ratelimit refcount rwsem sched sched/signal security seq_file signal slab smp spinlock stat stdarg stddef string string_choices sysfs time timekeeping timer timex types uaccess uuid vmalloc version wait workqueue debugfs; do echo "linux/$h.h"; done
  echo crypto/rng.h; echo crypto/internal/rng.h; echo crypto/algapi.h; echo asm/barrier.h; echo asm/processor.h; echo asm/byteorder.h; } | sort -u | while read -r h; do
	mkdir -p "$OUT/inc/$(dirname "$h")"; echo '#include "ksim_kernel.h"' > "$OUT/inc/$h"; done
mkdir -p "$OUT/inc/uapi/linux"
CF="-DLINUX_KERNEL -DCONFIG_PROC_FS=1 -DCONFIG_DEBUG_FS=1 -DCONFIG_X86=1 -DCONFIG_EXTERNAL_JITTERENTROPY_TESTINTERFACE=1 -DCONFIG_EXTERNAL_JITTERENTROPY_KCAPI=1 -DCONFIG_EXTERNAL_JITTERENTROPY_CHARDEV=1 -DCONFIG_EXTERNAL_JITTERENTROPY_HWRNG=1 -DJENT_CONF_ENABLE_MOCK_TIMER"
I="-I$OUT/inc -I$HERE/include -I$REPO -I$REPO/src -I$REPO/arch -I$REPO/linux_kernel"
GI=$(gcc -print-file-name=include)
KF="-g -fwrapv -w -fno-strict-aliasing -nostdinc -isystem $GI $CF $I"
pids=()
for f in "$REPO"/linux_kernel/*.c; do gcc $KF -O2 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -c "$f" -o "$OUT/k_$(basename "$f" .c).o" & pids+=($!); done
for f in "$REPO"/src/*.c "$REPO"/arch/*.c; do
	b=$(basename "$f" .c)
	grep -q "/$b\.o" "$REPO/linux_kernel/Kbuild.source" || continue
	gcc $KF -O3 -U__OPTIMIZE__ -c "$f" -o "$OUT/l_$b.o" & pids+=($!)
done
for f in plan json main; do gcc -g -O2 -Wall -Wextra -Wno-unused-parameter -I"$U" -c "$U/$f.c" -o "$OUT/s_$f.o" & pids+=($!); done
for f in kapi kjent kops kplan; do gcc -g -O2 -Wall -Wextra -Wno-unused-parameter -Wno-misleading-indentation -fwrapv -fno-strict-aliasing $CF -I"$U" -I"$HERE" $I -c "$HERE/$f.c" -o "$OUT/h_$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
WRAP=""; for w in jent_entropy_init_ex jent_entropy_collector_alloc jent_entropy_collector_alloc_raw jent_entropy_collector_free jent_read_entropy jent_read_entropy_safe jent_selftest jent_status jent_uuid jent_measure_jitter jent_measure_jitter_ntg1_sha3 jent_measure_jitter_ntg1_memaccess; do WRAP="$WRAP -Wl,--wrap=$w"; done
gcc -o "$OUT/ksim" "$OUT"/k_*.o "$OUT"/l_*.o "$OUT"/s_*.o "$OUT"/h_*.o $WRAP
