/* Seeded generation of kernel-module plans. */
#include "ksim.h"
static rng_t R; static sb_t *O; static int nid, real_on;
#define OP(t, fmt, ...) do { sb(O, "op %d %d " fmt "\n", nid, t, ##__VA_ARGS__); nid++; } while (0)
#define F(kind, ord, cnt, val) sb(O, "fault %s %d %d %d %ld\n", kind, nid, (int)(ord), (int)(cnt), (long)(val))
#define N(n) ((int)rng_n(&R, (uint64_t)(n)))
#define PC(n) rng_p(&R, (unsigned)(n))
static long len(void)
{
	static const long L[] = { 1, 31, 32, 33, 64, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 1279, 1280, 1281, 2047, 2048, 2049, 2304, 3000, 4096, 5000 };
	if (real_on) { static const long S[] = { 1, 32, 33, 64, 40, 8 }; return S[N(6)]; }
	return PC(4) ? 0 : PC(70) ? L[N(23)] : 1 + N(3500);
}
static long rlen(void) { static const long L[] = { 8, 16, 64, 128, 248, 256, 264, 512, 520, 1024, 1032, 4, 7, 12, 0, 2048 }; return real_on ? L[N(6)] : PC(8) ? 8000 + 8 * N(3) - 8 : PC(5) ? 16000 + 8 * N(3) - 8 : L[N(16)]; }
static const long code[] = { 2, 3, 5, 6, 7, 8, 4, 1, 9, 10, 11, 12 };
static void f_read(int heavy)
{
	if (!PC(heavy)) return;
	switch (N(10)) {
	case 0: case 1: F("gen", N(6), 1, code[N(12)]); break;
	case 2: F("gen", N(3), 1 + N(3), 2 + N(4)); break;
	case 3: if (!real_on) { int at = (int)N(4); F("genrec", at, 1 + N(2), 0); if (PC(30)) F("gen", at, 1, code[N(12)]); } break;
	case 4: F("kmem", N(3), 1, 0); break;
	case 5: F("copyto", N(5), 1, PC(50) ? 0 : N(300)); break;
	case 6: F("copyto", N(5), 1, -1); break;
	case 7: case 8: F("sig", PC(50) ? N(40) : N(400), 1, 0); break;
	default: F("sigblk", N(2), 1, 1 + N(6)); break;
	}
}
static void ioc(int t, int s, int raw, int heavy)
{
	int c = PC(12) ? 10 + N(3) : PC(25) ? 0 : PC(25) ? 8 : raw && PC(40) ? 9 : N(10);
	if (PC(heavy)) switch (N(7)) {
	case 0: F("copyto", N(2), 1, PC(50) ? -1 : 3); break;
	case 1: F("copyfrom", 0, 1, 0); break;
	case 2: F("kmem", N(2), 1, 0); break;
	case 3: F("stat", 0, 1, 0); break;
	case 4: F("sig", N(30), 1, 0); break;
	case 5: F("sigblk", 0, 1, 1 + N(5)); break;
	default: F("uuidf", 0, 1, 0); break;
	}
	if (c == 8 && PC(15)) F("kat", 0, 1, 0);
	OP(t, "ioc %d %d %d %d %d", s, c, N(8), (PC(25) ? 1 : 0) | (PC(20) ? 2 : 0), N(5) - 2);
}
static void f_open(int heavy)
{
	if (!PC(heavy)) return;
	switch (N(6)) {
	case 0: F("kmem", N(4), 1, 0); break;
	case 1: F("galloc", 0, 1, 0); break;
	case 2: F("uuidf", 0, 1, 0); break;
	case 3: F("proc", 0, 1, 0); break;
	case 4: F("sig", N(30), 1, 0); break;
	default: F("kmem", 0, 1, 0); break;
	}
}
static void f_load(void)
{
	static const char *k[] = { "kmem", "galloc", "init", "misc", "hwreg", "crreg", "proc", "procdir", "dbg", "dbgdir", "proc", "proc" };
	const char *s = k[N(12)];
	int m = !strcmp(s, "proc") ? 14 : !strcmp(s, "procdir") ? 5 : !strcmp(s, "kmem") ? 4 : 1;
	static const long e[] = { 12, 16, 17, 19, 22 };
	F(s, N(m), 1, !strcmp(s, "init") ? 1 + N(12) : e[N(5)]);
}
static void clockseg(void) { sb(O, "seg %d %d %d %d 0 0 0\n", nid, N(4000), PC(50) ? 100 : 2 + N(600), 1 + N(2)); }
/* one operation of a thread on the shared objects */
static void step(int t, const char *w, int heavy)
{
	int s = N(PC(60) ? 2 : 4), raw = 4 + N(2), tf = N(PC(60) ? 1 : 3);
	w += N(strlen(w));
	switch (*w) {
	case 'r': f_read(heavy); if (real_on && PC(12)) clockseg(); 
		if (!real_on && PC(3)) { static const long B[] = { 65536, 65535, 1 << 20, (1 << 20) + 1, 0x7fffffffL, 0x80000000L, 0xffffffffL, 0x100000000L, 0x100000001L, 0x100000100L, 0x7ffffffff000L };	/* more than is mapped */
			OP(t, "read %d %ld %ld", s, B[N(11)], PC(3) ? (1L << 20) + 700 : 1 + (long)N(PC(80) ? 3000 : 70000)); }
		else OP(t, "read %d %ld", s, len());
		break;
	case 'o': f_open(heavy / 2); OP(t, "open %d %d", s, PC(30)); break;
	case 'c': OP(t, "close %d", s); break;
	case 'n': OP(t, "nb %d %d", s, N(2)); break;
	case 'i': ioc(t, s, 0, heavy); break;
	case 'p': if (PC(20)) F("kmem", 0, 1, 0); else if (PC(10)) F("stat", 0, 1, 0); else if (PC(10)) F("sigblk", 0, 1, 1 + N(4)); OP(t, "procinst %d", PC(35) ? 100 + N(3) : s); break;
	case 'P': OP(t, "proc %d", PC(40) ? 0 : PC(30) ? 11 : N(12)); break;
	case 'h': if (PC(heavy)) { int at = (int)N(2); F("gen", at, 1, code[N(12)]); if (!real_on && PC(30)) F("genrec", at, 1, 0); } else if (PC(heavy)) F("sigblk", 0, 1, 1 + N(4)); else if (!real_on && PC(20)) F("genrec", 0, 1, 0);
		OP(t, "hw %d %d", PC(5) ? 0 : 1 + N(real_on ? 64 : PC(80) ? 128 : 600), PC(60)); break;
	case 't': if (PC(heavy)) F("galloc", 0, 1, 0); OP(t, "tinit %d", tf); break;
	case 'g': if (PC(heavy)) { F("gen", 0, 1, code[N(12)]); if (!real_on && PC(40)) F("genrec", 0, 1, 0); } else if (!real_on && PC(20)) F("genrec", 0, 1, 0);
		OP(t, "tgen %d %d %d", tf, PC(5) ? 0 : 1 + N(real_on ? 64 : PC(90) ? 200 : 2000), PC(15) ? 1 + N(64) : 0); break;
	case 's': OP(t, "tseed %d %d", tf, N(17)); break;
	case 'f': OP(t, "tfree %d", tf); break;
	case 'T': f_open(heavy); OP(t, "topen %d", raw); break;
	case 'R': if (PC(heavy)) { if (PC(50)) F("copyto", N(4), 1, PC(50) ? -1 : N(200)); else if (PC(60)) F("sig", N(200), 1, 0); else F("sigblk", N(3), 1, 1 + N(4)); } OP(t, "tread %d %ld", raw, rlen()); break;
	case 'I': ioc(t, raw, 1, heavy); break;
	case 'C': OP(t, "close %d", raw); break;
	case 'A': OP(t, "param %d %d", N(2), PC(50) ? N(4) : PC(50) ? 1 << (15 + N(2)) : 0); break;
	case 'a': OP(t, "adv %d", 1 + N(PC(70) ? 70 : 4000)); break;
	case 'L': if (PC(20)) OP(t, "lockdown"); break;
	case 'k': OP(t, "kat %d", N(2)); break;
	case 'u': OP(t, "unload"); break;
	}
}
static void phase(int thr, int nops, const char *w, int heavy) { int left[9]; for (int t = 1; t <= thr; t++) left[t] = 1 + N(nops); for (int more = 1; more;) { more = 0; for (int t = 1; t <= thr; t++) if (left[t] > 0) { left[t]--; more = 1; step(t, w, heavy); } } }
static void ser(int n, const char *w, int heavy) { for (int i = 0; i < n; i++) step(0, w, heavy); }
void gen_plan(const char *profile, uint64_t seed, sb_t *out)
{
	R.s = seed ^ 0x5851f42d4c957f2dULL; R.s = rng_next(&R); R.s = rng_next(&R) ^ seed; O = out; nid = 0;
	int is_real = !strncmp(profile, "kreal", 5), self = !strcmp(profile, "kself"), stat = !strcmp(profile, "kstat"), load = !strcmp(profile, "kload"), raw = !strcmp(profile, "kraw");
	real_on = is_real;
	static const long q[] = { 3, 10, 30, 100, 400, 2000 };
	sb(O, "sim ker\n# profile %s seed %llu\n", profile, (unsigned long long)seed);
	sb(O, "cfg clkseed=%llu schedseed=%llu schedp=%d quantum=%ld pct=%d\n", (unsigned long long)(rng_next(&R) >> 1), (unsigned long long)(rng_next(&R) >> 1), PC(30) ? 60 : 2 + N(40), q[N(6)] * (is_real ? 10 : 1), N(50));
	unsigned fl = 0; long osr = PC(60) ? 0 : N(8);
	if (is_real) { fl = (1u + (unsigned)N(2)) << 27 | (PC(50) ? 1u << 24 : 0); if (PC(40)) fl |= 1u << 5; if (PC(20)) fl |= 1u << 2; }
	else {
		if (PC(60)) fl |= (unsigned)N(16) << 27; if (PC(60)) fl |= (unsigned)N(8) << 24;
		for (int b = 2; b <= 7; b++) if (PC(15)) fl |= 1u << b;
	}
	sb(O, "cfg real=%d fips=%d lockdown=%d early=%d amd=%d ncpu=%d l1=%ld l2=%ld l3=%ld\n", is_real, PC(20), PC(raw ? 6 : 15), PC(50) ? 0 : N(4), N(2), 1 + N(4), 16384L << N(3), PC(10) ? 0L : 262144L << N(3), PC(30) ? 0L : 1048576L << N(5));
	sb(O, "cfg p_osr=%ld p_flags=%u p_verbose=%d", osr, fl, PC(30));
	if (!is_real && PC(15)) sb(O, " age=%d", 1 + N(600));
	if (PC(25)) sb(O, " p_ntg1=%d", is_real && PC(70) ? 0 : 1);
	if (PC(25)) sb(O, " p_force_fips=1");
	if (PC(20)) sb(O, " p_cache_all=1");
	long iv = self ? (PC(10) ? 0 : PC(85) ? 1 + N(90) : PC(50) ? 3000 : 2592000L + N(3) - 1) : PC(40) ? 1 + N(60) : 0;
	if (iv) sb(O, " p_selftest_interval=%ld", iv);
	if (PC(50)) sb(O, " p_hwrng_quality=%d", PC(60) ? N(1025) : PC(70) ? 1020 + N(50000) : 65536 * (1 + N(30000)) + N(1100));
	if (raw || PC(20)) { sb(O, " p_testing_osr=%d", N(4)); sb(O, " p_testing_flags=%u", (is_real ? 1u << 27 : 0) | (PC(30) ? 1u << 15 : PC(40) ? 1u << 16 : 0)); }
	sb(O, "\n");
	if (load) {
		int k = N(10);
		sb(O, "cfg lf=%d\n", k < 6);
		if (k < 6) f_load();
		if (k < 2) f_load();
		if (PC(60)) {	/* the interfaces are used while the module is still loading */
			OP(1, "load");
			int thr = 2 + N(2);
			for (int t = 2; t <= thr; t++) for (int i = 0, n = 1 + N(3); i < n; i++) step(t, "otgrhTPic", 20);
		} else OP(0, "load");
		ser(N(4), "orgtThPi", 20);
		if (PC(60)) phase(2 + N(3), 3, "oorgthTRPpcCfu", 20);
		OP(0, "unload");
		if (PC(40)) ser(3, "orhPc", 0);
		return;
	}
	OP(0, "load");
	if (raw && PC(25)) {	/* the parameters change while the file is opened */
		for (int i = 0, n = 1 + N(3); i < n; i++) {
			OP(1, "topen 4"); OP(1, "tread 4 %d", 8 * (1 + N(4))); OP(1, "close 4");
			for (int j = 0, m = 1 + N(3); j < m; j++) OP(2, "param 1 %d", PC(40) ? 0 : 1 << (15 + N(2)));
		}
		if (PC(40)) phase(3, 3, "RRRITCAL", 25);
		return;
	}
	if (raw) {
		OP(0, "topen 4"); if (PC(70)) OP(0, "topen 5");
		int n = 2 + N(5);
		for (int i = 0; i < n; i++) if (PC(45)) phase(2 + N(2), 3, "RRRITCAL", 25); else ser(1 + N(4), "RRRITCAL", 25);
		return;
	}
	const char *w = !strcmp(profile, "kread") ? "rrrnrco" : !strcmp(profile, "kconc") ? "rirpcona" : !strcmp(profile, "kfront") ? "hgtghfsPaf" : self ? "iairkpghacTIIotfh" : stat ? "iPpircoaP" : is_real ? "rrihgptcRToii" : "rihgpotfcTRPaI";
	for (int s = 0; s < 3; s++) if (PC(s ? 60 : 100)) { if (PC(8)) f_open(100); OP(0, "open %d %d", s, PC(25)); }
	if (PC(60)) OP(0, "tinit 0");
	if (is_real && PC(40)) OP(0, "topen 4");
	int n = is_real ? 2 + N(3) : 2 + N(7), heavy = PC(30) ? 0 : 10 + N(35);
	for (int i = 0; i < n; i++) {
		if (PC(!strcmp(profile, "kconc") ? 80 : 50)) phase(2 + N(3), is_real ? 2 : 4, w, heavy); else ser(1 + N(is_real ? 3 : 6), w, heavy);
		if (self || PC(20)) { if (PC(25)) sb(O, "fault kat 900 %d 1 0\n", N(12)); OP(0, "adv %ld", PC(60) && iv ? iv + N(3) - 1 : 1 + N(200)); }
		if (PC(stat ? 60 : 15)) OP(0, "proc %d", PC(60) ? 0 : N(12));
	}
	if (PC(30)) { ser(3, "cfC", 0); OP(0, "unload"); }
}
