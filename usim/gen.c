/* Seeded generation of plans for the lockstep engine. */
#include "sim.h"
#include "model.h"
#include <errno.h>

typedef struct {
	const char *name;
	int fipsmode;		/* % instances in a compliance mode */
	int ntg1;		/* of those, % NTG.1 */
	int segs;		/* % measuring ops with clock steering */
	int goal;		/* of those, % steering a health counter to its cutoff */
	int allocf, mlockf, kat, rnd, host;	/* % runs with these faults */
	int init_bad;		/* % start-up tests on a hostile clock */
	int safe;		/* % reads through the recovering call */
	int longreads, status, inttimer, cb, nomem, hiosr, selftest, noinit, cfgops;
} prof;
static const prof PR[] = {
	/* name      fips ntg seg goal alf mlk kat rnd hst ibad safe long stat int cb nomem hiosr self noinit cfg */
	{ "health",   92, 35, 75, 80,  0,  0,  0,  0,  5,   0,  30,  15,  10,  0, 50,  0,   20,   0,  30,  0 },
	{ "laglong", 100, 20, 90, 100, 0,  0,  0,  0,  0,   0,  50, 100,   0,  0, 30,  0,    0,   0,   0,  0 },
	{ "samples",  55, 40, 80, 10,  0,  0,  0,  0,  5,   0,  20,  30,   5,  0, 20, 25,   15,   0,  20,  0 },
	{ "output",   50, 40, 40, 10,  0,  0,  0,  0,  5,   0,  35,  80,   5,  0, 20, 25,   15,   5,  20,  0 },
	{ "recover",  95, 30, 80, 85, 25,  8,  6,  0,  5,  30,  90,  10,  30,  5, 50,  0,   45,  15,  20,  0 },
	{ "init",     40, 35, 15, 10, 20,  6, 15,  0, 10,  75,  20,   5,   5, 12, 20, 15,   15,   5,  40, 20 },
	{ "alloc",    60, 35, 40, 60, 90, 35,  5,  0, 10,  20,  60,   5,   5, 15, 20, 10,   15,   5,  40,  0 },
	{ "secmem",   60, 35, 20, 60, 20, 90,  0,  0,  5,   5,  60,   5,  60, 10, 20, 10,    5,   0,  40,  0 },
	{ "selftest", 75, 35, 50, 80,  5,  0, 75,  0,  5,   5,  70,   5,  10,  5, 60, 10,   10,  95,  30,  0 },
	{ "cb",       85, 35, 75, 85,  5,  0,  5,  0,  5,  10,  50,   5,  10,  0, 95,  0,   10,   5,  30, 50 },
	{ "status",   60, 35, 50, 60, 10, 20,  5,  5, 50,   5,  50,  10,  95,  5, 20, 20,   20,   5,  30,  0 },
	{ "uuid",     50, 35, 50, 80,  5,  0,  0, 95,  5,   5,  70,   5,  80,  0, 20, 10,   10,   5,  30,  0 },
	{ "host",     40, 35, 10, 20, 10,  5,  0, 10, 98,   5,  20,   5,  95, 10, 10, 15,   10,   0,  30, 10 },
	{ "config",   40, 50, 10, 20,  5, 10,  5,  0, 30,  20,  20,   5,  60, 45, 30, 25,   30,   5,  50, 70 },
	{ "stamp",    60, 35, 40, 40,  0,  0,  0,  0,  3,  20,  30,  10,   5,  0, 20, 10,   15,   0,  20,  0 },
	{ "heap",     60, 35, 25, 70, 50, 80,  0,  0, 15,   5,  70,   5,  60,  5, 20, 10,    5,   0,  50,  0 },
	{ "cutoff",   95, 50, 75, 90,  0,  0,  0,  0,  0,   0,  80,   5,   0,  0, 30,  0,    0,   0,   0,  0 },
	{ "story",    95, 50, 75, 90,  0,  0,  0,  0,  3,   0,  80,   5,  30,  0, 50,  0,   20,   0,  40,  0 },
	{ "mixed",    65, 35, 50, 50, 25, 15, 12, 25, 30,  20,  45,  15,  30, 10, 40, 12,   15,  20,  30, 15 },
};

static rng_t R;
static const prof *p;
static sb_t *O;
static int nid;
static int has_alloc_fault;

static unsigned rnd_flags(void)
{
	unsigned f = 0;
	if (rng_p(&R, (unsigned)p->fipsmode)) f |= rng_p(&R, (unsigned)p->ntg1) ? F_NTG1 | (rng_p(&R, 30) ? F_FIPS : 0) : F_FIPS;
	if (rng_p(&R, (unsigned)p->nomem)) f |= F_NOMEM;
	if (rng_p(&R, 15)) f |= F_CACHE_ALL;
	if (rng_p(&R, p->mlockf ? 30 : 8)) f |= F_SECMEM;
	if (rng_p(&R, 35)) f |= F_DIS_INT;
	if (rng_p(&R, (unsigned)p->inttimer)) f |= F_FORCE_INT;
	/* mostly small explicit working sets: faster, same code */
	switch (rng_n(&R, 10)) {
	case 0: break;
	case 1: f |= (unsigned)rng_n(&R, 12) << 27; break;
	case 2: if (rng_p(&R, 20)) { f |= (unsigned)rng_n(&R, 32) << 27; if ((f >> 27) > 13) f = (f & 0x07ffffffu) | 13u << 27; } break;
	default: f |= (unsigned)(1 + rng_n(&R, 4)) << 27;
	}
	if (rng_p(&R, 15)) f |= (unsigned)rng_n(&R, rng_p(&R, 10) ? 8 : 3) << 24;
	return f;
}
static unsigned rnd_osr(void)
{
	if (rng_p(&R, (unsigned)p->hiosr)) { static const unsigned v[] = { 16, 17, 18, 19, 20, 20, 21, 22, 255, 9, 12 }; return rng_p(&R, 50) ? 4 + (unsigned)rng_n(&R, 17) : v[rng_n(&R, 11)]; }
	return rng_p(&R, 70) ? (unsigned)rng_n(&R, 4) : (unsigned)rng_n(&R, 9);
}
static void seg(int op, long skip, long n, int k, int64_t a, int64_t b) { sb(O, "seg %d %ld %ld %d %lld %lld %llu\n", op, skip, n, k, (long long)a, (long long)b, (unsigned long long)(rng_next(&R) >> 8)); }
static long rnd_skip(void) { switch (rng_n(&R, 5)) { case 0: return 0; case 1: return (long)rng_n(&R, 20); case 2: return (long)rng_n(&R, 300); case 3: return (long)rng_n(&R, 1500); default: return (long)rng_n(&R, 5000); } }

static void steer_goal(int op, long skip)
{
	static const int off[] = { 0, 0, 0, -1, -1, 1, -2, 2 };
	int b = off[rng_n(&R, 8)], perm = rng_p(&R, 35);
	switch (rng_n(&R, 8)) {
	case 0: case 1: case 2: seg(op, skip, 100000, 4, perm, b); break;
	case 3: case 4: seg(op, skip, 6000, 5, perm, b); break;
	case 5: case 6: seg(op, skip, 100000, 6, perm, b); break;
	default: seg(op, skip, 8000, 7, perm, b); break;
	}
	if (rng_p(&R, 25)) {	/* a second alarm, right after */
		if (rng_p(&R, 50)) seg(op, skip, 100000, 4, perm, b); else seg(op, skip + (long)rng_n(&R, 2000), 100000, rng_p(&R, 50) ? 6 : 4, rng_p(&R, 50), 0);
	}
}
static void steer_any(int op)
{
	long skip = rnd_skip();
	if (rng_p(&R, (unsigned)p->goal)) { steer_goal(op, skip); return; }
	long n = rng_p(&R, 50) ? 1 + (long)rng_n(&R, 60) : 1 + (long)rng_n(&R, 3000);
	switch (rng_n(&R, 13)) {
	case 12: seg(op, skip, n > 1200 ? 1200 : n + 300, 23, (int64_t)rng_n(&R, 3), 0); break;
	case 0: seg(op, skip, n > 600 ? 600 : n, 1, 0, 0); break;
	case 1: seg(op, skip, n > 600 ? 600 : n, 2, 0, 0); break;
	case 2: seg(op, skip, n > 600 ? 600 : n, 3, 0, 0); break;
	case 3: seg(op, skip, 1 + (long)rng_n(&R, 8), 8, 0, (int64_t)rng_n(&R, 100000)); break;
	case 4: seg(op, skip, 1 + (long)rng_n(&R, 3), 10, 0, 0); break;
	case 5: seg(op, skip, n, 12, (int64_t)rng_n(&R, 50), (int64_t)rng_n(&R, 50)); break;
	case 6: seg(op, skip, 1, 13, (int64_t)rng_n(&R, 1000000), 0); break;
	case 7: seg(op, skip, n, 14, (int64_t)(1 + rng_n(&R, 200)) * 100, 0); break;
	case 8: seg(op, skip, n, 15, 1 + (int64_t)rng_n(&R, 20), 2 + (int64_t)rng_n(&R, 40)); break;
	case 9: seg(op, skip, n, 16, 2 + (int64_t)rng_n(&R, 6), 0); break;
	case 10: seg(op, skip, n, 17, 0, 2 + (int64_t)rng_n(&R, 12)); break;
	default: seg(op, skip, 1 + (long)rng_n(&R, 4), 9, 0, 0); break;
	}
}
static void hostile_init(int op)
{
	switch (rng_n(&R, 16)) {
	case 15: seg(op, 99 + (long)rng_n(&R, 1010), 2 + (long)rng_n(&R, 7), 8, 0, (int64_t)rng_n(&R, 100000)); if (rng_p(&R, 30)) seg(op, 101 + (long)rng_n(&R, 900), 1 + (long)rng_n(&R, 3), 8, 0, (int64_t)rng_n(&R, 100000)); break;	/* equal steps backwards */
	case 12: case 13: {	/* just enough, or just not enough, variation */
		static const int64_t N[] = { 340, 341, 342, 343, 1023, 1024, 1025, 255, 256, 257, 204, 205, 512, 511, 170, 171, 1LL << 30, (1LL << 32) / 3, (1LL << 32) / 3 + 1, 1LL << 32, 1LL << 31 };
		seg(op, 0, 2000, 26, N[rng_p(&R, 60) ? rng_n(&R, 4) : rng_n(&R, 21)], 50 + (int64_t)rng_n(&R, 5000)); break; }
	case 14: {	/* a divisor at the edge of what is accepted */
		static const int64_t G[] = { 2147483647, 2147483646, 2147483648, 2147483645, 4294967295, 4294967296, 65536, 1000003 };
		seg(op, 0, 2000, 25, G[rng_n(&R, 8)], 3 + (int64_t)rng_n(&R, 60)); break; }
	case 0: seg(op, (long)rng_n(&R, 1200), 1, 9, 0, 0); break;
	case 1: seg(op, (long)rng_n(&R, 1126), 1, 1, 0, 0); break;
	case 2: { int k = 2 + (int)rng_n(&R, 5); for (int i = 0; i < k; i++) seg(op, 101 + (long)rng_n(&R, 1020), 1, 8, 0, (int64_t)rng_n(&R, 100000)); break; }
	case 3: seg(op, 0, 2000, 11, 1 + (int64_t)rng_n(&R, 100000), 0); break;
	case 4: seg(op, 0, 2000, 12, (int64_t)rng_n(&R, 3), (int64_t)rng_n(&R, 4)); break;
	case 5: seg(op, 0, 2000, 14, (int64_t)1 << rng_n(&R, 40), 0); break;
	case 6: seg(op, 0, 2000, 15, 1 + (int64_t)rng_n(&R, 20), 1 + (int64_t)rng_n(&R, 6)); break;
	case 7: seg(op, (long)rng_n(&R, 200), 2000, 16, 2 + (int64_t)rng_n(&R, 14), 0); break;
	case 8: seg(op, (long)rng_n(&R, 900), 2000, 4, rng_p(&R, 40), (int64_t)rng_n(&R, 3) - 1); break;
	case 9: seg(op, (long)rng_n(&R, 300), 2000, 5, rng_p(&R, 40), (int64_t)rng_n(&R, 3) - 1); break;
	case 10: seg(op, (long)rng_n(&R, 600), 2000, 6, rng_p(&R, 40), (int64_t)rng_n(&R, 3) - 1); break;
	default: seg(op, 0, 3 + (long)rng_n(&R, 10), rng_p(&R, 50) ? 8 : 13, 0, 5000); seg(op, (long)rng_n(&R, 1100), 30, 1 + (int)rng_n(&R, 3), 0, 0); break;
	}
}
static void alloc_faults(int op, int nmax)
{
	static const char *k[] = { "mmap", "mmap", "mmap", "mprot", "mprot2", "madvise" };
	if (!has_alloc_fault || !rng_p(&R, 55)) return;
	sb(O, "fault %s %d %d %d %d\n", k[rng_n(&R, 6)], op, (int)rng_n(&R, (uint64_t)nmax), rng_p(&R, 80) ? 1 : 1 + (int)rng_n(&R, 8), rng_p(&R, 80) ? ENOMEM : EAGAIN);
}
static int mlock_run;
static void mlock_faults(int op, int nmax)
{
	static const int e[] = { EPERM, ENOMEM, EAGAIN, EINVAL };
	if (!mlock_run || !rng_p(&R, 60)) return;
	int at = (int)rng_n(&R, (uint64_t)nmax), n = rng_p(&R, 70) ? 1 : 30;
	sb(O, "fault mlock %d %d %d %d\n", op, at, n, e[rng_n(&R, 4)]);
	if (!strcmp(p->name, "heap") && rng_p(&R, 25)) sb(O, "fault mmap %d %d 1 %d\n", op, n == 1 ? at : at + (int)rng_n(&R, 5), ENOMEM);	/* neither arena nor heap */
}

#define OP(fmt, ...) do { sb(O, "op %d 0 " fmt "\n", nid, ##__VA_ARGS__); nid++; } while (0)
static void one_alarm(int perm) { seg(nid, rng_p(&R, 60) ? 0 : rnd_skip(), 100000, 4 + (int)rng_n(&R, 4), perm, rng_p(&R, 80) ? 0 : (int64_t)rng_n(&R, 3) - 1); }
/* whole stories: what a deployment meets over the life of one instance */
static void gen_story(void)
{
	unsigned fl = rnd_flags() | (rng_p(&R, 90) ? (rng_p(&R, 50) ? F_NTG1 : F_FIPS) : 0);
	fl &= ~(unsigned)(F_FORCE_INT);
	if (rng_p(&R, 60)) OP("setcb 1");
	if (rng_p(&R, 50)) OP("initex 0 %u", fl);
	if (rng_p(&R, 10)) one_alarm(0);
	OP("alloc 0 %u %u", rng_p(&R, 15) ? 17 + (unsigned)rng_n(&R, 4) : rnd_osr(), fl);
	int k = 1 + (int)rng_n(&R, 4);
	switch (rng_n(&R, 4)) {
	case 0: case 1:	/* alarm, recovery, alarm, recovery ... */
		while (k--) {
			one_alarm(0);
			if (rng_p(&R, 20)) seg(nid, 0, 100000, 4 + (int)rng_n(&R, 4), 0, 0);
			OP("safe 0 %d", rng_p(&R, 70) ? 32 : 1 + (int)rng_n(&R, 100));
			if (rng_p(&R, 60)) OP("read 0 32");
			if (rng_p(&R, 20)) OP("selftest 0 1");
			if (rng_p(&R, 30)) { one_alarm(0); OP("read 0 32"); if (rng_p(&R, 50)) OP("status 0 4096"); }
		}
		OP("safe 0 32");
		break;
	case 2:	/* plain reads until the failure is permanent, then every call there is */
		one_alarm(0);
		seg(nid, 0, 100000, 4 + (int)rng_n(&R, 4), 1, 0);
		if (rng_p(&R, 50)) seg(nid, 0, 100000, 4 + (int)rng_n(&R, 4), 1, 0);
		OP("reads 0 %d %ld", rng_p(&R, 80) ? 32 : 1, 80 + (long)rng_n(&R, 200));
		if (rng_p(&R, 30)) OP("selftest 0 1");
		OP("safe 0 32"); OP("read 0 32"); OP("safe 0 32"); OP("status 0 4096");
		break;
	default:	/* an instance that keeps failing under the recovering call */
		while (k--) {
			one_alarm(0);
			seg(nid, 0, 100000, 19 + (int)rng_n(&R, 4), rng_p(&R, 50), 0);
			if (rng_p(&R, 50)) seg(nid, 0, 100000, 4 + (int)rng_n(&R, 4), 1, 0);
			OP("%s 0 32 %ld", rng_p(&R, 60) ? "safes" : "safe", 1 + (long)rng_n(&R, 12));
		}
		OP("safe 0 32"); OP("read 0 32");
	}
	if (rng_p(&R, 50)) { OP("free 0"); OP("alloc 0 %u %u", rnd_osr(), fl); OP("read 0 32"); }
}
/* recovery at the upper edge of what it may raise: hash loops, working set, oversampling rate */
/* requests far larger than usual, and many of them */
static void gen_deep(void)
{
	static const long L[] = { 4096, 8192, 32767, 32768, 65535, 65536, 65537, 70000 };
	unsigned fl = rng_p(&R, 40) ? 0 : rng_p(&R, 60) ? F_FIPS : F_NTG1;
	sb(O, "cfg budget=6000000\n");
	OP("initex 1 %u", fl);
	OP("alloc 0 1 %u", fl | (1u + (unsigned)rng_n(&R, 2)) << 27);
	if (rng_p(&R, 30)) OP("reads 0 %d %d", 32 + (int)rng_n(&R, 40), 300 + (int)rng_n(&R, 100));
	OP("%s 0 %ld", rng_p(&R, 30) ? "safe" : "read", rng_p(&R, 70) ? L[rng_n(&R, rng_p(&R, 60) ? 4 : 8)] : 500 + (long)rng_n(&R, 20000));
	OP("read 0 %d", 1 + (int)rng_n(&R, 64));
}
static void gen_edge(void)
{
	int k = (int)rng_n(&R, 30), big = k == 0, hash = k > 0 && k < 10, n = big || hash ? 1 : 1 + (int)rng_n(&R, 3);
	unsigned fl = F_FIPS | (rng_p(&R, 50) ? F_DIS_INT : 0), osr = 1 + (unsigned)rng_n(&R, 3);
	if (big && rng_p(&R, 65)) { sb(O, "cfg l1=32768 l2=1048576 l3=%ld sysfs=17\n", (16L << 20) << rng_n(&R, 5)); fl |= F_CACHE_ALL; }	/* up to the largest server parts */
	else if (big) fl |= (unsigned)(19 + rng_n(&R, 2)) << 27;
	else {
		fl |= (unsigned)(hash ? 6 + rng_n(&R, 2) : rng_n(&R, 3)) << 24 | (1u + (unsigned)rng_n(&R, 3)) << 27;
		if (!hash) { osr = 17 + (unsigned)rng_n(&R, 4); if (rng_p(&R, 20)) fl |= F_NTG1; }
	}
	sb(O, "cfg budget=3000000\n");
	if (rng_p(&R, 30)) OP("setcb 1");
	OP("alloc 0 %u %u", osr, fl);
	while (n--) {
		seg(nid, rng_p(&R, 60) ? 0 : (long)rng_n(&R, 300), 100000, rng_p(&R, 50) ? 4 : 6, 0, 0);
		OP("safe 0 %d", rng_p(&R, 70) ? 32 : 1);
		OP("status 0 4096");
	}
	if (!big) OP("read 0 32");
}
/* the lag test over whole windows */
static void gen_lag(void)
{
	unsigned fl = (1u + (unsigned)rng_n(&R, 2)) << 27 | (rng_p(&R, 85) ? F_FIPS : F_NTG1) | (rng_p(&R, 4) ? F_NOMEM : 0);
	unsigned osr = rng_p(&R, 35) ? (unsigned)rng_n(&R, 4) : 3 + (unsigned)rng_n(&R, 18);
	int perm = rng_p(&R, 50), safe = rng_p(&R, perm ? 10 : 30);
	if (rng_p(&R, 30)) OP("setcb 1");
	if (rng_p(&R, osr > 6 ? 80 : 30)) { OP("initex 3 %u", fl); seg(nid, 0, 1000000, 6, 2, 0); }	/* the window begins predictably */
	OP("alloc 0 %u %u", osr, fl);
	long b = (long)(osr < 3 ? 3 : osr) * 321 / 32 + 1;	/* samples per byte */
	long bytes = 140000 / b + 64; if (bytes > 3900) bytes = 3900;
	if (rng_p(&R, 35)) {
		seg(nid, 0, 1000000, 24, 60 + (int64_t)rng_n(&R, 80), 0);
		OP("read 0 %ld", bytes);
	} else {
		seg(nid, 0, 1000000, 6, 2 | perm, (int64_t)rng_n(&R, 3) - 1);
		OP("%s 0 %ld %d", safe ? "safes" : "reads", bytes, perm ? 420 : 1 + (int)rng_n(&R, 2));
	}
	OP("%s 0 32", rng_p(&R, 50) ? "safe" : "read"); OP("status 0 4096");
}

/* every cutoff of every test, mode and rate, met exactly or missed by one */
static void gen_cut(void)
{
	static const int kinds[10] = { 5, 5, 5, 5, 5, 6, 6, 4, 7, 7 };
	int ntg = rng_p(&R, 60), kind = kinds[rng_n(&R, 10)], perm = rng_p(&R, 60);
	unsigned fl = (1u + (unsigned)rng_n(&R, 2)) << 27 | (ntg ? F_NTG1 : F_FIPS) | (rng_p(&R, 50) ? F_DIS_INT : 0);
	int b = rng_p(&R, 50) ? 0 : rng_p(&R, 80) ? -1 : 1;
	if (kind == 7 && !ntg) kind = 5;
	if (rng_p(&R, 20)) OP("setcb 1");
	int osr = 3 + (int)rng_n(&R, 18);
	OP("alloc 0 %d %u", osr, fl);
	if (kind == 6 && perm) { seg(nid, 0, 100000, 6, 4, -1); seg(nid, 0, 100000, 21, 0, b); }
	else seg(nid, (long)rng_n(&R, 40), 100000, kind, perm, b);
	if (perm) OP("reads 0 32 %d", kind == 6 ? 50 + 24 * osr : 30 + (int)rng_n(&R, 100)); else OP("read 0 %d", rng_p(&R, 50) ? 32 : 64);
	OP("status 0 4096");
	if (rng_p(&R, 30)) OP("%s 0 32", rng_p(&R, 50) ? "safe" : "read");
}

void gen_plan(const char *profile, uint64_t seed, sb_t *out)
{
	R.s = seed ^ 0x2545f4914f6cdd1dULL; R.s = rng_next(&R); R.s = rng_next(&R) ^ seed;
	p = &PR[sizeof PR / sizeof *PR - 1];
	for (size_t i = 0; i < sizeof PR / sizeof *PR; i++) if (!strcmp(PR[i].name, profile)) p = &PR[i];
	if (!strcmp(profile, "health") && rng_n(&R, 60) == 0) p = &PR[1];
	O = out; nid = 0;
	static const long gr[] = { 1, 1, 1, 1, 2, 3, 7, 10, 24, 100, 1000 };
	int host = rng_p(&R, (unsigned)p->host), kat = rng_p(&R, (unsigned)p->kat), rnd = rng_p(&R, (unsigned)p->rnd);
	has_alloc_fault = rng_p(&R, (unsigned)p->allocf); mlock_run = rng_p(&R, (unsigned)p->mlockf);
	sb(O, "sim seq\n# profile %s seed %llu\n", profile, (unsigned long long)seed);
	sb(O, "cfg clkseed=%llu gran=%ld base=%ld spread=%ld t0=%llu\n", (unsigned long long)(rng_next(&R) >> 1), gr[rng_n(&R, 11)],
	   rng_p(&R, 50) ? 20000L : 3 + (long)rng_n(&R, 500), rng_p(&R, 70) ? 4096L : 200 + (long)rng_n(&R, 100000),
	   rng_p(&R, 85) ? 1000000ULL : rng_p(&R, 50) ? 0xffffffff00000000ULL + (rng_next(&R) >> 33) : 1ULL);
	if (!strcmp(profile, "stamp")) {	/* counter readings at the edges of their bits, coarse and fast clocks, long gaps */
		uint64_t t0; unsigned k = 20 + (unsigned)rng_n(&R, 44);
		if (rng_p(&R, 30)) k = 32;
		t0 = (1ULL << k) * (1 + rng_n(&R, 5)) - (rng_next(&R) >> (64 - 22 - rng_n(&R, 9)));
#ifdef V_NSCLOCK
		t0 %= 1ULL << 61;
		if (rng_p(&R, 40)) t0 = (1 + rng_n(&R, 4294967000ULL)) * 1000000000ULL - rng_n(&R, 4000000);
#endif
		sb(O, "cfg t0=%llu\n", (unsigned long long)t0);
		if (rng_p(&R, 25)) sb(O, "cfg base=%llu spread=%llu gran=1\n", 1ULL << (24 + rng_n(&R, 14)), 1ULL << (10 + rng_n(&R, 26)));
	}
	if (p->safe >= 80 && rng_n(&R, 70) == 0) { gen_edge(); return; }
	if (!strcmp(profile, "output") && rng_n(&R, 120) == 0) { gen_deep(); return; }
	if (host) {
		static const long mul[] = { 4, 4, 4, 5, 6, 7 };	/* quarters: sizes that are no powers of two exist */
		sb(O, "cfg l1=%ld l2=%ld l3=%ld sysfs=%ld aff_sparse=%ld ncpu=%d\n", (long)(rng_p(&R, 20) ? 0 : (1024L << rng_n(&R, 9)) * mul[rng_n(&R, 6)] / 4), (long)(rng_p(&R, 20) ? 0 : (4096L << rng_n(&R, 11)) * mul[rng_n(&R, 6)] / 4),
		   (long)(rng_p(&R, 20) ? 0 : (65536L << rng_n(&R, 9)) * mul[rng_n(&R, 6)] / 4), (long)(rng_n(&R, 64)), (long)rng_n(&R, 6), rng_p(&R, 60) ? 1 : 1 + (int)rng_n(&R, 16));
		if (rng_p(&R, 60)) sb(O, "cfg fips=%d\n", (int)rng_n(&R, 10));
		if (rng_p(&R, 40)) sb(O, "cfg cshape=%d sysc=%d\n", 1 + (int)rng_n(&R, 1000000), (int)rng_n(&R, 5));
	} else if (rng_p(&R, 8)) sb(O, "cfg fips=%d\n", (int)rng_n(&R, 4));
	if (rng_p(&R, rnd || host ? 12 : 2)) sb(O, "cfg lowfd=1\n");
	if (mlock_run && rng_p(&R, 25)) sb(O, "cfg mlockmode=%d\n", rng_p(&R, 50) ? EPERM : ENOMEM);
	if (rng_p(&R, p->selftest > 50 ? 60 : 30)) sb(O, "cfg cbact=%d\n", (int)rng_n(&R, p->selftest > 10 || p->kat > 10 ? 8 : 4));
	if (p == &PR[1]) { gen_lag(); return; }
	if (!strcmp(profile, "cutoff")) { gen_cut(); return; }
	if (!strcmp(profile, "story")) { gen_story(); return; }
	if (rng_p(&R, (unsigned)p->cb)) OP("setcb 1");
	if (rng_p(&R, (unsigned)p->cfgops)) { if (rng_p(&R, 50)) OP("setcpu %d", (int)rng_n(&R, 64)); if (rng_p(&R, 40)) OP("switchnt %d", (int)(1 + rng_n(&R, 2))); if (rng_p(&R, 10)) OP("setcb 0"); }
	int ninit = rng_p(&R, (unsigned)p->noinit) ? 0 : 1 + (int)rng_n(&R, p->init_bad > 50 ? 3 : 1);
	unsigned fl = rnd_flags();
	for (int i = 0; i < ninit; i++) {
		if (rng_p(&R, (unsigned)p->init_bad)) hostile_init(nid);
		alloc_faults(nid, 6); mlock_faults(nid, 6);
		if (rng_p(&R, 30)) OP("init"); else OP("initex %u %u", rnd_osr(), rng_p(&R, 60) ? fl : rnd_flags());
	}
	int nops = 3 + (int)rng_n(&R, 9);
	if (!strcmp(profile, "host") && rng_p(&R, 50)) nops = 1 + (int)rng_n(&R, 3);	/* the host matters, not what follows */
	int live[4] = { 0 };
	if (kat && rng_p(&R, 20)) { OP("kat 1"); if (rng_p(&R, 50)) { OP("initex 0 %u", rnd_flags()); } }
	for (int i = 0; i < nops; i++) {
		int s = (int)rng_n(&R, rng_p(&R, 70) ? 1 : 4);
		if (!live[s]) {
			if (rng_p(&R, (unsigned)p->segs) && rng_p(&R, 35)) { if (rng_p(&R, (unsigned)p->init_bad)) hostile_init(nid); else steer_any(nid); }
			alloc_faults(nid, 8); mlock_faults(nid, 8);
			if (rnd && rng_p(&R, 70)) {
				static const int V[] = { 1, 1, 1, 2, 2, 2, 3, 4 };
				if (rng_p(&R, 60)) sb(O, "fault getrandom %d 0 %d 3\n", nid, rng_p(&R, 60) ? 99 : 1);
				else { int k = 1 + (int)rng_n(&R, 4); while (k--) sb(O, "fault getrandom %d %d %d %d\n", nid, (int)rng_n(&R, 5), rng_p(&R, 70) ? 1 : 1 + (int)rng_n(&R, 6), V[rng_n(&R, 8)]); }
				if (rng_p(&R, 15)) sb(O, "fault uropen %d 0 1 %d\n", nid, rng_p(&R, 50) ? ENOENT : EMFILE);
				if (rng_p(&R, 80)) { int k = 1 + (int)rng_n(&R, 5); while (k--) sb(O, "fault urread %d %d %d %d\n", nid, (int)rng_n(&R, 7), rng_p(&R, 80) ? 1 : 1 + (int)rng_n(&R, 3), V[rng_n(&R, rng_p(&R, 70) ? 6 : 8)]); }
			}
			OP("alloc %d %u %u", s, rnd_osr(), rng_p(&R, 60) ? fl : rnd_flags());
			if (p->status >= 90 && rng_p(&R, 25)) { static const int B[] = { 31, 32, 32, 29, 40, 53, 56 }; OP("age %d %llu %llu", s, (1ULL << B[rng_n(&R, 7)]) - rng_n(&R, 4), (1ULL << B[rng_n(&R, 7)]) - rng_n(&R, 200)); }
			live[s] = 1; continue;
		}
		switch (rng_n(&R, 12)) {
		case 0: OP("free %d", s); live[s] = 0; break;
		case 1: if (rng_p(&R, (unsigned)p->status)) { OP("status %d %d", s, rng_p(&R, 40) ? 4096 : rng_p(&R, 20) ? (int)rng_n(&R, 4) : (int)rng_n(&R, 2300)); if (rng_p(&R, 50)) OP("uuid %d %d", s, rng_p(&R, 40) ? 35 + (int)rng_n(&R, 4) : (int)rng_n(&R, 64)); break; } /* fallthrough */
		case 2: if (kat) { if (rng_p(&R, 50)) { OP("kat %d", rng_p(&R, 60)); } OP("selftest %d %d", s, rng_p(&R, 80)); if (rng_p(&R, 40)) OP("kat 0"); break; } /* fallthrough */
		case 3: if (rng_p(&R, (unsigned)p->selftest)) { OP("selftest %d %d", s, rng_p(&R, 80)); break; } /* fallthrough */
		case 4: if (rng_p(&R, (unsigned)p->cfgops)) { switch (rng_n(&R, 4)) { case 0: OP("setcb %d", (int)rng_n(&R, 2)); break; case 1: OP("setcpu %d", (int)rng_n(&R, 9)); break; case 2: OP("switchnt %d", (int)rng_n(&R, 3)); break; default: OP("initex %u %u", rnd_osr(), rnd_flags()); } break; } /* fallthrough */
		case 5: if (rng_p(&R, 20)) { if (rng_p(&R, 50)) OP("null %d %d", (int)rng_n(&R, 8), s); else if (host) OP("fips %d", (int)rng_n(&R, 10)); else OP("null %d %d", (int)rng_n(&R, 8), s); break; } /* fallthrough */
		default: {
			int safe = rng_p(&R, (unsigned)p->safe); long len;
			if (rng_p(&R, (unsigned)p->longreads)) len = (long)rng_n(&R, 400);
			else { static const long L[] = { 0, 1, 31, 32, 32, 32, 33, 64, 65, 96, 8, 16 }; len = L[rng_n(&R, 12)]; }
			if (rng_p(&R, (unsigned)p->segs)) steer_any(nid);
			if (safe) {
				alloc_faults(nid, 14); mlock_faults(nid, 14);
				if (rng_p(&R, (unsigned)p->init_bad)) { long k = 1000 + (long)rng_n(&R, 3000); seg(nid, k, 1 + (long)rng_n(&R, 40), (int)(1 + rng_n(&R, 3)), 0, 0); if (rng_p(&R, 30)) seg(nid, k + (long)rng_n(&R, 4000), 100000, 4, 0, 0); }
			}
			if (rng_p(&R, p->goal > 50 ? 20 : 4)) {	/* keep asking an instance that is in trouble */
				long n = 2 + (long)rng_n(&R, rng_p(&R, 50) ? 5 : 70);
				if (!safe && rng_p(&R, 50)) {	/* one alarm first, then another counter up to its permanent cutoff */
					n = 100 + (long)rng_n(&R, 300);
					seg(nid, rng_p(&R, 50) ? 0 : rnd_skip(), 100000, 4 + (int)rng_n(&R, 4), 0, 0);
					seg(nid, 0, 100000, 4 + (int)rng_n(&R, 4), 1, rng_p(&R, 70) ? 0 : (int64_t)rng_n(&R, 3) - 1);
					if (rng_p(&R, 50)) seg(nid, 0, 100000, 4 + (int)rng_n(&R, 4), 1, 0);
				} else
					seg(nid, 0, 100000, 19 + (int)rng_n(&R, 4), rng_p(&R, 50), rng_p(&R, 70) ? 0 : (int64_t)rng_n(&R, 3) - 1);
				OP("%s %d %ld %ld", safe ? "safes" : "reads", s, len > 64 ? 32 : len, n);
			} else {
				if (safe && rng_p(&R, p->goal > 50 ? 25 : 5)) seg(nid, 0, 100000, 19 + (int)rng_n(&R, 4), rng_p(&R, 50), rng_p(&R, 70) ? 0 : (int64_t)rng_n(&R, 3) - 1);
				OP("%s %d %ld", safe ? "safe" : "read", s, len);
			}
		}
		}
	}
	if (has_alloc_fault || kat || rng_p(&R, 30)) { OP("kat 0"); OP("status 0 4096"); OP("read 0 32"); OP("safe 1 32"); }
}
