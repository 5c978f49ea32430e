/* stand-in for the compiler's <cpuid.h>: the instruction is answered by the simulator */
#ifndef SIM_CPUID_H
#define SIM_CPUID_H
void sim_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
unsigned sim_cpuid_max(unsigned ext);
#define __cpuid_count(l, s, a, b, c, d) sim_cpuid((l), (s), &(a), &(b), &(c), &(d))
#define __cpuid(l, a, b, c, d) sim_cpuid((l), 0, &(a), &(b), &(c), &(d))
static inline unsigned __get_cpuid_max(unsigned ext, unsigned *sig) { if (sig) *sig = 0x756e6547; return sim_cpuid_max(ext); }
static inline int __get_cpuid_count(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { unsigned m = sim_cpuid_max(l & 0x80000000u); if (!m || m < l) return 0; sim_cpuid(l, s, a, b, c, d); return 1; }
static inline int __get_cpuid(unsigned l, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { return __get_cpuid_count(l, 0, a, b, c, d); }
#endif
