/*
 * Forced into the second build of the lockstep engine: makes the library take
 * the paths of a Linux system whose C library is not glibc (processor count
 * and cache sizes from sysfs only).
 */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <features.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#undef __GLIBC__
#undef __GLIBC_MINOR__
#undef _SC_LEVEL1_DCACHE_SIZE
#undef _SC_LEVEL2_CACHE_SIZE
#undef _SC_LEVEL3_CACHE_SIZE
