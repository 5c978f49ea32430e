/* The cache descriptions a CPU gives through its CPUID instruction (bare-metal and kernel builds). */
#include "sim.h"
extern long w_cpu_number(long i);
int sim_on_cpu;	/* hybrid parts: the cores differ */
enum { CPU_INTEL, CPU_AMD, CPU_NONE, CPU_OLD };
static int cpu_kind(void) { return (int)(P.sysfs & 3) == 3 && !(P.sysfs & 4) ? CPU_OLD : (int)(P.sysfs & 3) == 2 ? CPU_NONE : (P.sysfs & 1) ? CPU_AMD : CPU_INTEL; }
unsigned sim_cpuid_max(unsigned ext)
{
	switch (cpu_kind()) {
	case CPU_OLD: return ext ? 0x80000008u : 3;	/* neither leaf exists */
	case CPU_AMD: return ext ? 0x80000021u : P.sysfs & 8 ? 1 : 0x10;	/* older ones end before leaf 4 */
	default: return ext ? P.sysfs & 8 ? 0x80000008u : 0x80000021u : 0x1f;
	}
}
static long cpu_size(int level, int cpu)
{
	long v = level == 1 ? P.l1 : level == 2 ? P.l2 : P.l3;
	if ((P.sysfs & 32) && (cpu & 1) && level < 3) v = v / 2;	/* the smaller cores */
	return v & ~63L;
}
void sim_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	static const int lv[5] = { 1, 1, 2, 3, 4 }, ty[5] = { 2, 1, 3, 3, 3 };	/* instruction, data, unified ... */
	unsigned k = 0;
	*a = *b = *c = *d = 0;
	stat_add("os.cpuid", 1);
	unsigned max = sim_cpuid_max(leaf & 0x80000000u);
	if (leaf > max) { *a = 1 | 1 << 5; *b = 0x01c0003fu; *c = 127; return; }	/* another leaf's content */
	if (leaf == 0 || leaf == 0x80000000u) { *a = max; return; }
	if (leaf == (cpu_kind() == CPU_AMD ? 4u : 0x8000001du) || (leaf != 4 && leaf != 0x8000001du) || cpu_kind() == CPU_NONE) return;
	for (int i = 0; i < 5; i++) {
		int order = P.sysfs & 16 ? (i < 2 ? 1 - i : i) : i;
		long s = lv[order] == 4 ? (P.sysfs & 8 ? 64L << 20 : 0) : cpu_size(lv[order], sim_on_cpu);
		if (!s) continue;
		if (k++ != sub) continue;
		unsigned long line = 64, parts = s % 128 == 0 && (P.sysfs & 8) ? 2 : 1, ways = 1;
		while (ways < 16 && s % (long)(line * parts * ways * 2) == 0) ways *= 2;
		if (s % (long)(line * parts * ways * 3) == 0) ways *= 3;
		*a = (unsigned)(ty[order] | lv[order] << 5 | 1 << 8); *b = (unsigned)((line - 1) | (parts - 1) << 12 | (ways - 1) << 22); *c = (unsigned)((unsigned long)s / (line * parts * ways) - 1);
		return;
	}
}
#ifdef V_ARM64
/* ---- the cache identification registers of an arm64 core ---- */
static uint64_t csselr = 7, csselr_next = 7;
static long arm_size(int level) { return level == 4 ? (P.sysfs & 8 ? 64L << 20 : 0) : level > 4 ? 0 : cpu_size(level, sim_on_cpu); }
static int arm_wide(void)
{
	for (int l = 1; l <= 4; l++) { long n = arm_size(l) / 64, w = 1; while (w < 1024 && n % (w * 2) == 0 && n / w > 32768) w *= 2; if (n / w > 32768) return 1; }
	return !!(P.sysfs & 1);
}
void sim_isb(void) { csselr = csselr_next; }
void sim_sysreg_write(const char *r, uint64_t v) { if (strcmp(r, "csselr_el1")) viol("crash", "write to system register %s", r); csselr_next = v; }
uint64_t sim_sysreg_read(const char *r)
{
	stat_add("os.sysreg", 1);
	if (!strcmp(r, "id_aa64mmfr2_el1")) return (arm_wide() ? 1u << 20 : 0) | 0x10000015ull;
	if (!strcmp(r, "csselr_el1")) return csselr_next;
	if (!strcmp(r, "clidr_el1")) {
		uint64_t v = 0; int top = arm_size(4) ? 4 : arm_size(3) ? 3 : arm_size(2) ? 2 : 1;
		for (int l = 1; l <= top; l++) v |= (uint64_t)(!arm_size(l) ? 1 : l > 1 ? 4 : P.sysfs & 16 ? 2 : 3) << (3 * (l - 1));
		return v | 3ull << 27 | 2ull << 21;
	}
	if (strcmp(r, "ccsidr_el1")) { viol("crash", "read of system register %s", r); return 0; }
	long n = arm_size((int)(csselr >> 1 & 7) + 1) / 64, w = 1, wide = arm_wide();
	if ((csselr & 1) || !n) return 0x700fe01aull ^ (uint64_t)wide << 33;	/* the instruction cache, or unknown */
	while (w < 16 && n % (w * 2) == 0) w *= 2;
	while (!wide && w < 1024 && n / w > 32768) w *= 2;
	return wide ? 2 | (uint64_t)(w - 1) << 3 | (uint64_t)(n / w - 1) << 32 : 2 | (uint64_t)(w - 1) << 3 | (uint64_t)(n / w - 1) << 13 | 5ull << 28;
}
#endif
/* documented: smallest power of two greater than the largest L1 data cache, or of all caches together */
unsigned sim_cpuid_bits(int all, const int *cpus, int n)
{
	long m[4] = { 0 }; unsigned b = 0;
#ifndef V_ARM64
	if (cpu_kind() == CPU_NONE || cpu_kind() == CPU_OLD) return 0;
#endif
	for (int i = 0; i < n; i++) for (int l = 1; l <= 3; l++) { long v = cpu_size(l, cpus[i]); if (v > m[l]) m[l] = v; }
	uint32_t s = (uint32_t)m[1] + (all ? (uint32_t)m[2] + (uint32_t)m[3] : 0);
	while (s) { s >>= 1; b++; }
	return b;
}
#ifdef V_KHOST
/* ---- what the kernel's back ends ask ---- */
struct cpuinfo_x86 { int cpuid_level; uint32_t extended_cpuid_level; } boot_cpu_data;
int fips_enabled; static int held;
void sim_khost(void) { boot_cpu_data.cpuid_level = (int)sim_cpuid_max(0); boot_cpu_data.extended_cpuid_level = sim_cpuid_max(0x80000000u); fips_enabled = w_fips_model(); if (!held) sim_on_cpu = P.ncpu > 1; }
unsigned num_online_cpus(void) { return (unsigned)P.ncpu; }
unsigned num_possible_cpus(void) { return (unsigned)P.ncpu + 4; }
unsigned num_present_cpus(void) { return (unsigned)P.ncpu + 2; }
void cpus_read_lock(void) { held++; }
void cpus_read_unlock(void) { if (--held < 0) viol("crash", "cpus_read_unlock() without the lock"); }
int ks_next_online(int c) { for (long i = 0; i < P.ncpu; i++) if (w_cpu_number(i) > c) return (int)w_cpu_number(i); return -1; }
static int refuses(int cpu) { return P.aff_sparse == 2 && cpu == 0; }
int smp_call_function_single(int cpu, void (*f)(void *), void *info, int wait)
{
	int was = sim_on_cpu;
	if (!wait) viol("crash", "the measuring function may still run when its result is used");
	if (refuses(cpu)) { stat_add("fault.smp_call", 1); return -6; }
	sim_on_cpu = cpu;
#ifdef V_ARM64
	csselr = csselr_next = 7;	/* each core has its own */
#endif
	f(info); sim_on_cpu = was;
	return 0;
}
void cpuid_count(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { sim_cpuid(l, s, a, b, c, d); }
unsigned sim_khost_bits(int all)
{
	static int cpus[4096]; int n = 0;
	for (long i = 0; i < P.ncpu && n < 4096; i++) if (!refuses((int)w_cpu_number(i))) cpus[n++] = (int)w_cpu_number(i);
	if (held) viol("leak-fd", "the CPU hotplug lock is left held");
	return sim_cpuid_bits(all, cpus, n);
}
#endif
