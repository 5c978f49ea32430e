/* Seeded generation of concurrent plans. */
#include "sim.h"
#include <errno.h>
enum { F_NOMEM = 1<<2, F_FORCE_INT = 1<<3, F_DIS_INT = 1<<4, F_FIPS = 1<<5, F_NTG1 = 1<<6, F_CACHE_ALL = 1<<7, F_SECMEM = 1<<8 };
static rng_t R; static sb_t *O; static int nid;
static unsigned flags(int fips)
{
	unsigned f = (unsigned)(rng_p(&R, 80) ? 1 + rng_n(&R, 2) : 0) << 27 | (rng_p(&R, 70) ? 1u << 24 : 0);
	if (rng_p(&R, 10)) f |= F_CACHE_ALL;
	if (rng_p(&R, (unsigned)fips)) f |= rng_p(&R, 30) ? F_NTG1 : F_FIPS; else if (rng_p(&R, 30)) f |= F_NOMEM;
	if (rng_p(&R, 10)) f |= F_SECMEM;
	return f;
}
static unsigned osr(void) { return rng_p(&R, 85) ? 0 : rng_p(&R, 93) ? (unsigned)rng_n(&R, 6) : 4 + (unsigned)rng_n(&R, 17); }
static long len(void) { static const long L[] = { 1, 32, 32, 32, 33, 64, 8, 16, 0 }; return L[rng_n(&R, 9)]; }
#define OP(t, fmt, ...) do { sb(O, "op %d %d " fmt "\n", nid, t, ##__VA_ARGS__); nid++; } while (0)
#define SEG(skip, n, k, a, b) sb(O, "seg %d %ld %ld %d %ld %ld 1\n", nid, (long)(skip), (long)(n), (int)(k), (long)(a), (long)(b))
static void alarm_seg(void)
{
	switch (rng_n(&R, 4)) {
	case 0: SEG(rng_n(&R, 900), 80 + rng_n(&R, 60), 1, 0, 0); break;
	case 1: SEG(rng_n(&R, 900), 80 + rng_n(&R, 60), 11, 1 + rng_n(&R, 90), 0); break;
	case 2: SEG(rng_n(&R, 500), 400 + rng_n(&R, 300), 12, rng_n(&R, 9), 10 + rng_n(&R, 9)); break;
	default: SEG(rng_n(&R, 900), 1 + rng_n(&R, 20), 8, 0, 0); break;
	}
}
static void thread_body(int t, int nops, int alarms, int faults, int do_init)
{
	int live[2] = { 0 }; unsigned f0 = flags(60);
	if (do_init) OP(t, "initex %u %u", osr(), f0 | F_DIS_INT);
	for (int i = 0; i < nops; i++) {
		int s = rng_p(&R, 75) ? 0 : 1;
		if (faults && rng_p(&R, 40)) {
			static const char *k[] = { "mmap", "mmap", "mprot", "mlock" };
			sb(O, "fault %s %d %d 1 %d\n", k[rng_n(&R, 4)], nid, (int)rng_n(&R, 7), ENOMEM);
		}
		if (!live[s]) { OP(t, "alloc %d %u %u", s, osr(), rng_p(&R, 60) ? f0 : flags(60)); live[s] = 1; continue; }
		switch (rng_n(&R, 12)) {
		case 0: OP(t, "free %d", s); live[s] = 0; break;
		case 1: OP(t, "status %d", s); break;
		case 2: OP(t, "selftest %d %d", s, (int)rng_n(&R, 2)); break;
		case 3: if (rng_p(&R, 40)) { OP(t, "initex %u %u", osr(), flags(50)); break; } /* fallthrough */
		case 4: if (rng_p(&R, 30)) { switch (rng_n(&R, 3)) { case 0: OP(t, "setcpu %d", (int)rng_n(&R, 9)); break; case 1: OP(t, "setcb 0"); break; default: OP(t, "switchnt 0"); } break; } /* fallthrough */
		default: if (alarms && rng_p(&R, 60)) alarm_seg();
			OP(t, "%s %d %ld", rng_p(&R, alarms ? 80 : 40) ? "safe" : "read", s, len());
		}
	}
}
static unsigned iflags(void)	/* internal timer */
{
	unsigned f = (unsigned)(1 + rng_n(&R, 2)) << 27 | 1u << 24 | F_FORCE_INT;
	if (rng_p(&R, 65)) f |= F_FIPS;
	if (rng_p(&R, 4)) f |= F_NTG1;
	if (rng_p(&R, 4)) f |= F_DIS_INT;
	if (rng_p(&R, 20)) f |= F_SECMEM;
	return f;
}
static int only_lock;
static void int_faults(int heavy)
{
	if (only_lock && rng_p(&R, 60)) { sb(O, "fault mlock %d %d 1 %d\n", nid, (int)rng_n(&R, 9), rng_p(&R, 50) ? EPERM : ENOMEM); return; }
	if (rng_p(&R, (unsigned)heavy)) sb(O, "fault thread %d %d %d %d\n", nid, (int)rng_n(&R, rng_p(&R, 60) ? 1 : 3), rng_p(&R, 60) ? 1 : 40, EAGAIN);
	else if (rng_p(&R, (unsigned)heavy / 4)) sb(O, "fault attr %d %d 1 %d\n", nid, (int)rng_n(&R, 2), ENOMEM);
	else if (rng_p(&R, (unsigned)heavy / 2)) sb(O, "fault %s %d %d 1 %d\n", rng_p(&R, 50) ? "mmap" : "mprot", nid, (int)rng_n(&R, 9), ENOMEM);
	else if (rng_p(&R, (unsigned)heavy / 3)) sb(O, "fault mlock %d %d 1 %d\n", nid, (int)rng_n(&R, 9), rng_p(&R, 50) ? EPERM : ENOMEM);
	else if (rng_p(&R, (unsigned)heavy / 5)) sb(O, "fault ntinit %d %d 1 0\n", nid, (int)rng_n(&R, 2));
	else if (rng_p(&R, (unsigned)heavy)) sb(O, "fault steady %d %d %d 0\n", nid, (int)rng_n(&R, rng_p(&R, 50) ? 900 : 15000), rng_p(&R, 40) ? 100 + (int)rng_n(&R, 200) : rng_p(&R, 80) ? 1500 + (int)rng_n(&R, 1500) : (int)rng_n(&R, 5000));
	if (rng_p(&R, (unsigned)heavy / 3)) {	/* an alarm right after a restart, and no thread for the next attempt */
		sb(O, "fault steady %d %d %d 0\n", nid, (int)rng_n(&R, rng_p(&R, 50) ? 300 : 1500), 1500 + (int)rng_n(&R, 1500));
		sb(O, "fault thread %d %d %d %d\n", nid, rng_p(&R, 50) ? 2 : 1 + (int)rng_n(&R, 4), rng_p(&R, 60) ? 1 : 40, EAGAIN);
	}
	if (rng_p(&R, 5)) sb(O, "fault setaffinity %d 0 9 %d\n", nid, EINVAL);
}
static void int_body(int t, int nops, int heavy)
{
	int live = 0, kat = rng_p(&R, heavy > 20 ? 25 : 10); unsigned f0 = iflags();
	if (rng_p(&R, 70)) { int_faults(heavy); OP(t, "initex %u %u", 0u, f0); }
	for (int i = 0; i < nops; i++) {
		int_faults(heavy);
		if (kat && rng_p(&R, 40)) { if (rng_p(&R, 60)) { OP(t, "kat 1"); OP(t, "selftest 0 1"); OP(t, "kat 0"); } else OP(t, "kat %d", (int)rng_n(&R, 2)); }
		if (!live) { OP(t, "alloc 0 %u %u", 0u, rng_p(&R, 80) ? f0 : rng_p(&R, 50) ? iflags() : (iflags() & ~(unsigned)F_FORCE_INT) | (rng_p(&R, 40) ? F_DIS_INT : 0)); live = 1; continue; }
		switch (rng_n(&R, 8)) {
		case 0: OP(t, "free 0"); live = 0; break;
		case 1: OP(t, "status 0"); break;
		case 2: OP(t, "selftest 0 1"); break;
		case 3: if (rng_p(&R, 40)) { OP(t, "initex 0 %u", rng_p(&R, 60) ? f0 : flags(50)); break; } /* fallthrough */
		default: OP(t, "%s 0 %ld", rng_p(&R, 50) ? "safe" : "read", len()); 
		}
	}
}
void gen_plan(const char *profile, uint64_t seed, sb_t *out)
{
	R.s = seed ^ 0x5851f42d4c957f2dULL; R.s = rng_next(&R); R.s = rng_next(&R) ^ seed; O = out; nid = 0;
	sb(O, "sim con\n# profile %s seed %llu\n", profile, (unsigned long long)seed);
	static const long q[] = { 300, 1000, 3000, 10000, 100000, 1000000 };
	long quant = q[rng_n(&R, 6)];
	sb(O, "cfg clkseed=%llu schedseed=%llu schedp=%d quantum=%ld gran=%d base=%ld spread=4096 pct=%d\n", (unsigned long long)(rng_next(&R) >> 1), (unsigned long long)(rng_next(&R) >> 1),
	   rng_p(&R, 30) ? 100 : 10 + (int)rng_n(&R, 70), quant, 1 + (int)rng_n(&R, 3), 3 + (long)rng_n(&R, 20000), (int)rng_n(&R, 60));
	int nthr = 2 + (int)rng_n(&R, 3);
	if (rng_p(&R, 50)) sb(O, "cfg l1=%ld l2=%ld l3=%ld\n", 4096L << rng_n(&R, 5), 16384L << rng_n(&R, 4), rng_p(&R, 50) ? 0 : 65536L << rng_n(&R, 3));
	if (rng_p(&R, !strcmp(profile, "race") ? 50 : !strcmp(profile, "self") ? 0 : 30)) sb(O, "cfg rv=%d\n", 1 + (int)rng_n(&R, rng_p(&R, 70) ? 6 : 20));
	if (!strcmp(profile, "race") && rng_p(&R, 30)) {	/* two first initializations that meet, and one goes on to use its instance before the other continues */
		sb(O, "cfg rv=%d quantum=%ld\n", 1 + (int)rng_n(&R, 9), q[2 + rng_n(&R, 4)]);
		for (int t = 1; t <= 2 + (int)rng_p(&R, 30); t++) {
			OP(t, "initex %u %u", osr(), flags(40) | F_DIS_INT);
			OP(t, "alloc 0 0 %u", 1u << 27 | 1u << 24 | (rng_p(&R, 80) ? (unsigned)F_NOMEM : 0) | F_DIS_INT);
			OP(t, "read 0 %ld", len());
		}
	} else if (!strcmp(profile, "race") && rng_p(&R, 50)) {	/* nothing but first initializations, then a read each */
		sb(O, "cfg schedp=%d quantum=%ld pct=10\n", rng_p(&R, 50) ? 100 : 50, q[rng_n(&R, 3)]);
		for (int t = 1; t <= nthr; t++) thread_body(t, rng_p(&R, 50) ? 1 + (int)rng_n(&R, 2) : 0, 0, 0, 1);
	} else if (!strcmp(profile, "race")) {	/* concurrent first initialization, allocation, reads */
		if (rng_p(&R, 25)) OP(0, "setcpu %d", (int)rng_n(&R, 8));
		for (int t = 1; t <= nthr; t++) thread_body(t, (int)rng_n(&R, 4), 0, 0, 1);
	} else if (!strcmp(profile, "gate")) {	/* start-up gate under concurrency */
		int mode = (int)rng_n(&R, 4);
		if (mode == 0) { sb(O, "cfg spread=0 ncpu=1\n"); }
		if (mode == 1) OP(0, "kat 1");
		for (int t = 1; t <= nthr; t++) {
			int n = 1 + (int)rng_n(&R, 3);
			for (int i = 0; i < n; i++) {
				if (mode >= 2 && rng_p(&R, 50)) { SEG(0, 1000000, 11, 1 + rng_n(&R, 50), 0); OP(t, "initex 0 %u", flags(50) | F_DIS_INT); }
				else if (mode >= 2 && rng_p(&R, 30)) { sb(O, "fault mmap %d %d 1 %d\n", nid, (int)rng_n(&R, 5), ENOMEM); OP(t, "initex 0 %u", flags(50) | F_DIS_INT); }
				else if (rng_p(&R, 40)) OP(t, "initex 0 %u", flags(50) | F_DIS_INT);
				else { OP(t, "alloc %d 0 %u", i & 1, flags(80) | F_DIS_INT); if (mode >= 2) { if (rng_p(&R, 50)) OP(t, "read %d 32", i & 1); OP(t, "free %d", i & 1); } }
			}
		}
	} else if (!strcmp(profile, "indep")) {	/* set up once, then independent instances, alarms and recoveries */
		if (rng_p(&R, 40)) OP(0, "setcb 1");
		OP(0, "initex 0 %u", flags(30) | F_DIS_INT);
		int al = rng_p(&R, 70), fa = rng_p(&R, 25);
		for (int t = 1; t <= nthr; t++) thread_body(t, 2 + (int)rng_n(&R, 4), al && rng_p(&R, 70), fa && rng_p(&R, 50), 0);
	} else if (!strcmp(profile, "self")) {	/* self tests bound to an instance another thread reads from */
		OP(0, "initex 0 %u", (unsigned)F_DIS_INT);
		OP(0, "alloc 0 0 %u", (1u + (unsigned)rng_n(&R, 2)) << 27 | 1u << 24 | F_DIS_INT | (rng_p(&R, 60) ? F_FIPS : rng_p(&R, 30) ? F_NTG1 : 0));
		OP(0, "xread 0 32");
		int n = 1 + (int)rng_n(&R, 4);
		for (int i = 0; i < n; i++) OP(1, "xread 0 %d", rng_p(&R, 50) ? 32 : 32 * (1 + (int)rng_n(&R, 4)));
		for (int t = 2; t <= (rng_p(&R, 70) ? 2 : 3); t++) {
			int m = 1 + (int)rng_n(&R, 5);
			if (rng_p(&R, 80)) OP(t, "wait 1 %d", (int)rng_n(&R, (uint64_t)n * 30000));
			for (int i = 0; i < m; i++) { if (t == 2 && rng_p(&R, 40)) OP(t, "kat %d", rng_p(&R, 60)); OP(t, "xself 0 %d", rng_p(&R, 85)); }
			if (t == 2) OP(t, "kat 0");
		}
		OP(0, "xread 0 32"); OP(0, "xself 0 1"); OP(0, "xread 0 1"); OP(0, "xsafe 0 32");
	} else if (!strcmp(profile, "work")) {	/* what is done between two time stamps */
		unsigned b = rng_p(&R, 10) ? F_NOMEM : 0, m = (rng_p(&R, 75) ? 5u + (unsigned)rng_n(&R, 2) : 7u + (unsigned)rng_n(&R, 6)) << 27;
		sb(O, "cfg work=1 ncpu=1 quantum=1000000 base=%ld\n", 60 + (long)rng_n(&R, 20000));
		int in = !b && rng_p(&R, 15); unsigned ti = in ? F_FORCE_INT : F_DIS_INT;
		if (in) sb(O, "cfg ncpu=%d\n", 2 + (int)rng_n(&R, 4));
		OP(0, "initex 0 %u", m | b | 1u << 24 | ti | (!b && rng_p(&R, 50) ? F_FIPS : 0));
		int k = 1 + (int)rng_n(&R, 2);
		for (int i = 0; i < k; i++) {
			unsigned f = m | b | (unsigned)rng_n(&R, 3) << 24 | ti;
			if (!b && rng_p(&R, 60)) f |= rng_p(&R, 50) && !in ? F_NTG1 : F_FIPS;
			if (rng_p(&R, 15)) sb(O, "fault %s %d %d 1 %d\n", rng_p(&R, 50) ? "mmap" : "mlock", nid, (int)rng_n(&R, 5), ENOMEM);
			OP(0, "alloc %d %u %u", i & 1, rng_p(&R, 70) ? 0 : rng_p(&R, 75) ? (unsigned)rng_n(&R, 6) : 4 + (unsigned)rng_n(&R, 17), f);
			int q = (int)rng_n(&R, 3);
			while (q--) { if (!in && rng_p(&R, 25)) alarm_seg(); OP(0, "%s %d %ld", rng_p(&R, 50) ? "safe" : "read", i & 1, len()); }
			if (rng_p(&R, 60)) OP(0, "free %d", i & 1);
		}
	} else {	/* timer: the internal timer's counting threads */
		int heavy = !strcmp(profile, "timerfault") ? 45 : rng_p(&R, 50) ? 0 : 15;
		sb(O, "cfg ncpu=%d aff_sparse=%d rndmode=%d quantum=%ld\n", rng_p(&R, 8) ? 1 : 2 + (int)rng_n(&R, 6), rng_p(&R, 40) ? 0 : (int)(1 + rng_n(&R, 4)), rng_p(&R, 50) ? 0 : (int)rng_n(&R, 30), quant > 10000 ? 10000 : quant);
		if (rng_p(&R, 30)) { static const long k[] = { 0, 0, 0, 1, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 65535, 65536, 100000 }; OP(0, "setcpu %ld", rng_p(&R, 40) ? (long)rng_n(&R, 8) : k[rng_n(&R, 14)]); }
		if (rng_p(&R, 50)) OP(0, "setcb 1");
		if (rng_p(&R, 25)) OP(0, "switchnt 3 %d", (int)rng_n(&R, 64));
		only_lock = !strcmp(profile, "timersec");
		nthr = only_lock || rng_p(&R, 60) ? 1 : 2;
		for (int t = 1; t <= nthr; t++) int_body(t, 1 + (int)rng_n(&R, 5), heavy);
	}
}
