/*
 * Builds without the mock: the library's own time-stamp back end runs, and what
 * the machine underneath would answer comes from here.  The counter instruction
 * is replaced by a call in the assembly text of the library (sim_rdtsc), the
 * clock system calls by renamed symbols.
 */
#include "sim.h"
#include <time.h>
#include <errno.h>
#include <sys/time.h>
#include "clock.h"
uint64_t clk_stamp(void);
#define MAXV (4294967296ULL * 1000000000ULL)
static uint64_t nread;
__asm__(
".text\n.globl sim_rdtscp\nsim_rdtscp:\n xorl %ecx, %ecx\n"
".globl sim_rdtsc\nsim_rdtsc:\n pushfq\n push %rbp\n mov %rsp, %rbp\n push %rbx\n push %rcx\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %r11\n"
" mov %rsp, %rbx\n sub $640, %rsp\n and $-64, %rsp\n cld\n fxsave64 (%rsp)\n call clk_stamp\n fxrstor64 (%rsp)\n mov %rbx, %rsp\n"
" pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n pop %rcx\n pop %rbx\n mov %rax, %rdx\n shr $32, %rdx\n mov %eax, %eax\n pop %rbp\n popfq\n ret\n");

/* clocks of a machine without a counter; only the monotonic ones are free of outside interference */
int sim_clock_gettime(clockid_t c, struct timespec *t);
int sim_clock_gettime(clockid_t c, struct timespec *t)
{
	uint64_t v = clk_stamp();
	nread++;
	if (v == 0 && (P.clkseed & 1)) { stat_add("fault.clock_gettime", 1); errno = EINVAL; return -1; }
	if (v >= MAXV) viol("plan-too-long", "the simulated clock leaves the range of the monotonic clock");
	switch (c) {
	case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_BOOTTIME: break;
	case CLOCK_MONOTONIC_COARSE: case CLOCK_REALTIME_COARSE: v -= v % 4000000; break;
	case CLOCK_REALTIME: v += 1700000000ULL * 1000000000ULL + nread / 40 * 1234567; break;	/* stepped every now and then */
	default: v /= 2;
	}
	t->tv_sec = (time_t)(v / 1000000000ULL); t->tv_nsec = (long)(v % 1000000000ULL);
	return 0;
}
int sim_gettimeofday(struct timeval *t, void *z);
int sim_gettimeofday(struct timeval *t, void *z) { struct timespec s; (void)z; if (sim_clock_gettime(CLOCK_REALTIME, &s)) return -1; t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
int sim_timespec_get(struct timespec *t, int b);
int sim_timespec_get(struct timespec *t, int b) { return sim_clock_gettime(CLOCK_REALTIME, t) ? 0 : b; }
/* kernel: an architecture whose cycle counter may be missing */
static uint64_t pend; static int have;
uint64_t sim_random_get_entropy(void); uint64_t sim_ktime(void);
uint64_t sim_random_get_entropy(void)
{
	uint64_t v = clk_stamp();
	if (P.clkseed & 2) { pend = v; have = 1; stat_add("fault.no_cycle_counter", 1); return 0; }
	have = v == 0; pend = 0;
	return v;
}
uint64_t sim_ktime(void) { if (have) { have = 0; return pend; } return clk_stamp(); }
