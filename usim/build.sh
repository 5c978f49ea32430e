#!/bin/bash
# build.sh REPO OUT [nonglibc|noint|gcrypt|openssl|awslc|bare|khost|khosta|ship|asan|msan|nocounter|kship|knocounter] : build the lockstep simulator from REPO's working tree
set -e
REPO=$1; OUT=$2; VAR=$3; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
WR="mmap mmap64 openat openat64 pread pread64 fopen fopen64 getentropy munmap mprotect madvise mlock mlock2 munlock open open64 read close getrandom sched_getaffinity sched_setaffinity sysconf"
WRAP=""; for w in $WR; do WRAP="$WRAP -Wl,--wrap=$w"; done
LF="-g -O3 -U__OPTIMIZE__ -DJENT_PTHREAD -I$REPO -I$REPO/src -I$REPO/arch -fwrapv -w"
V=""; CC=gcc; SAN=""; SSAN=""; SIM="keccak model plan world json clock seq gen main"; MOCK=-DJENT_CONF_ENABLE_MOCK_TIMER; INT=-DJENT_CONF_ENABLE_INTERNAL_TIMER
case "$VAR" in
noint) V=-DV_NOINT; INT= ;;
gcrypt|openssl|awslc|bare) WRAP="$WRAP -Wl,--wrap=jent_zalloc" ;;
asan) WRAP="$WRAP -Wl,--wrap=jent_zalloc -Wl,--wrap=jent_zfree" ;;
esac
case "$VAR" in
gcrypt) V="-DV_HEAP -DV_GCRYPT"; LF="$LF -DLIBGCRYPT -I$HERE/cryptoinc" ;;
openssl) V="-DV_HEAP -DV_OPENSSL"; LF="$LF -DOPENSSL -I$HERE/cryptoinc" ;;
awslc) V="-DV_HEAP -DV_AWSLC"; LF="$LF -DAWSLC -I$HERE/cryptoinc" ;;
bare) V="-DV_HEAP -DV_BARE -DV_NOINT"; LF="$LF -DJENT_BAREMETAL -I$HERE/cryptoinc"; INT=; SIM="$SIM cpuid" ;;
khost) V=-DV_KHOST; SIM="$SIM cpuid" ;;
khosta) V="-DV_KHOST -DV_ARM64"; SIM="$SIM cpuid" ;;
asan) V=-DV_ASAN; SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=signed-integer-overflow,alignment,shift-base,nonnull-attribute -fno-omit-frame-pointer" ;;
msan) V=-DV_MSAN; CC=clang; SAN="-fsanitize=memory -fno-omit-frame-pointer"; SSAN=$SAN ;;
nonglibc) LF="$LF -include $HERE/nonglibc.h"; V=-DV_NONGLIBC ;;
ship|kship) V=-DV_NOMOCK; MOCK= ;;
nocounter) LF="$LF -include $HERE/nocounter.h"; V="-DV_NOMOCK -DV_NSCLOCK"; MOCK= ;;
knocounter) V=-DV_NOMOCK; MOCK= ;;
esac
LF="$LF $MOCK $INT $SAN"
[ -n "$MOCK" ] || { LF="$LF -mno-red-zone"; SIM="$SIM stamp"; }
# the library without the mock: the counter instruction becomes a call into the simulator
nomock() { gcc $1 -S "$2" -o "$3.s" && sed -i -E 's/\brdtscp\b/call sim_rdtscp/; s/\brdtsc\b/call sim_rdtsc/' "$3.s" && gcc -c "$3.s" -o "$3" &&
	objcopy --redefine-sym clock_gettime=sim_clock_gettime --redefine-sym gettimeofday=sim_gettimeofday --redefine-sym timespec_get=sim_timespec_get "$3"; }
# the kernel's flags for the time-stamp back end
if [ "$VAR" = kship ] || [ "$VAR" = knocounter ] || [ "$VAR" = khost ] || [ "$VAR" = khosta ]; then
	for h in $(grep -hoE '# *include *<(linux|asm)/[^>]+>' "$REPO"/src/*.[ch] "$REPO"/arch/*.[ch] "$REPO"/jitterentropy.h | sed -E 's/.*<([^>]+)>.*/\1/' | sort -u) linux/types.h linux/timex.h linux/timekeeping.h linux/ktime.h linux/time.h; do
		mkdir -p "$OUT/inc/$(dirname "$h")"; echo '#include "ksim_kernel.h"' > "$OUT/inc/$h"; done
	KF="-g -O2 -mno-red-zone -fwrapv -w -fno-strict-aliasing -nostdinc -isystem $(gcc -print-file-name=include) -DLINUX_KERNEL -I$OUT/inc -I$HERE/../ksim/include -I$REPO -I$REPO/src -I$REPO/arch"
	if [ "$VAR" = khosta ]; then KF="$KF -DCONFIG_ARM64=1 -include $HERE/arm64.h"; else KF="$KF -DCONFIG_X86=1"; fi
	[ "$VAR" != knocounter ] || KF="$KF -include $HERE/nocounter_k.h"
fi
pids=()
for f in "$REPO"/src/*.c "$REPO"/arch/*.c; do
	o="$OUT/l_$(basename "$f" .c).o"; F=$LF
	[ "$VAR" != msan ] || case "$f" in *-sha3.c) ;; *) F="${LF/-O3/-O0}" ;; esac	# an optimiser removes uses of unset values
	case "$VAR$f" in kship*-arch-timer.c|knocounter*-arch-timer.c) F=$KF ;; khost*-arch-cache.c|khost*-arch-ncpu.c|khost*-arch-fips.c|khost*-arch-random.c) F=$KF ;; esac
	if [ -n "$MOCK" ]; then $CC $F -c "$f" -o "$o" & else nomock "$F" "$f" "$o" & fi
	pids+=($!)
done
[ -n "$VAR" ] || gcc $LF -c "$HERE/age.c" -o "$OUT/s_age.o" 2>/dev/null || rm -f "$OUT/s_age.o"
for f in $SIM; do $CC $SSAN -g -O2 -Wall -Wextra -Wno-unused-parameter $V $MOCK $INT -DJENT_PTHREAD -I"$HERE" -I"$REPO" -I"$REPO/arch" -c "$HERE/$f.c" -o "$OUT/s_$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
[ "$VAR" != bare ] || for o in "$OUT"/l_*.o; do objcopy --redefine-sym malloc=sim_malloc --redefine-sym calloc=sim_calloc --redefine-sym free=sim_free "$o"; done
$CC $SAN -o "$OUT/usim" "$OUT"/l_*.o "$OUT"/s_*.o $WRAP -lpthread
