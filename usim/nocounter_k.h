/* The kernel's time-stamp back end on an architecture without a counter instruction. */
#include <linux/types.h>
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
extern unsigned long long sim_random_get_entropy(void), sim_ktime(void);
#define random_get_entropy() ((unsigned long)sim_random_get_entropy())
#define get_cycles() ((unsigned long)sim_random_get_entropy())
#define ktime_get_ns() sim_ktime()
#define ktime_get_raw_ns() sim_ktime()
#define ktime_get_boottime_ns() sim_ktime()
