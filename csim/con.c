/*
 * Concurrent engine: several simulated threads call the real library; every
 * memory access is a possible switch.  Oracles: each thread's results equal
 * those of the same calls run alone, plus ledger and ordering invariants.
 */
#include "sched.h"
#include "json.h"
#include "keccak.h"
#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_mprotect(void *, size_t, int);
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"

#define NT 8
#define NS 4
enum { F_FORCE_INT = 1 << 3, F_DIS_INT = 1 << 4, F_FIPS = 1 << 5, F_NTG1 = 1 << 6, F_SECMEM = 1 << 8 };
enum { E_NOTIME = -4, E_SELF = -11 };
extern long last_pin; extern int pin_calls; long w_cpu_number(long i);

/* ---- the work that is timed: writes to the memory of the memory access noise source ---- */
static struct { unsigned char *lo, *hi, *cov; long n, hit; uint64_t part; } BM[32]; static int nBM;
void con_map_hook(unsigned char *p, size_t len, int on)
{
	int i;
	if (!P.work || len < 8192 + 16384 || len > 8192 + (64 << 20)) return;
	p += 4096; len -= 8192;
	for (i = 0; i < nBM && (on ? !!BM[i].lo : BM[i].lo != p); i++) ;
	if (on) {
		if (i == nBM) { if (nBM == 32) return; nBM++; BM[i].cov = (unsigned char *)__real_mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
		BM[i].lo = p; BM[i].hi = p + len; BM[i].n = BM[i].hit = 0; BM[i].part = 0; if (len <= 1 << 20) memset(BM[i].cov, 0, len);
	} else if (i < nBM) {
		long sz = BM[i].hi - BM[i].lo;
		if (BM[i].n >= sz / 16 && BM[i].n >= 4096) {	/* a 64th of the memory that this many accesses never reached is out of use */
			stat_add(sz > 1 << 20 ? "ev.parts_big" : "ev.parts", 1);
			if (~BM[i].part) viol("work-spread", "%ld memory accesses for noise never reached %d of the 64 equal parts of the %ld bytes set aside for them", BM[i].n, __builtin_popcountll(~BM[i].part), sz);
		}
		if (sz <= 1 << 20 && BM[i].n >= 3 * sz) { stat_add("ev.spread", 1); if (BM[i].hit * 100 < sz * 85) viol("work-spread", "%ld memory accesses for noise reached only %ld of the %ld bytes of the memory set aside for them", BM[i].n, BM[i].hit, sz); }
		BM[i].lo = BM[i].hi = NULL;
	}
}
void con_work(const void *a)
{
	for (int i = 0; i < nBM; i++) if ((const unsigned char *)a >= BM[i].lo && (const unsigned char *)a < BM[i].hi) {
		size_t o = (size_t)((const unsigned char *)a - BM[i].lo), sz = (size_t)(BM[i].hi - BM[i].lo);
		BM[i].n++; BM[i].part |= 1ULL << (o * 64 / sz);
		if (sz <= 1 << 20 && !BM[i].cov[o]) { BM[i].cov[o] = 1; BM[i].hit++; }
		cur->iv_w++; cur->op_w++; return;
	}
}
static void work_stamp(void)
{
	cur->n_st++;
	if (cur->iv_w >= 384) cur->n_triple++;
	if (cur->iv_w >= 128) cur->n_full++; else if (cur->iv_w) cur->n_part++; else if (sc_acc - cur->iv_a < 25) cur->n_short++;
	cur->iv_w = 0; cur->iv_a = sc_acc;
}
static struct { struct rand_data *ec; unsigned flags; int internal, alarmed, dead, perm; long failed_at, inv, bytes; int osr0; } S[NT][NS];
static int cb_on, in_cb; static unsigned cb_mask[NT]; static int cb_n[NT];
static struct rec { int op; long ret; uint64_t hash; long ts, end; } rec[NT][128];
static int nrec[NT], unstable;	/* unstable: a start-up test failed, results of others may legitimately depend on order */
static int maybe_forced;	/* a start-up test that failed may have switched the process to the internal timer for good */
static long cfg_cpu = -1; static int forced, any_fault, any_kat, phase, init_done[NT], init_order[NT], n_init_order;
static long cur_hash_ops, stable_until = 1L << 60, op_start[NT];
static void not_stable(int t) { unstable = 1; if (op_start[t] < stable_until) stable_until = op_start[t]; }

/* ---- per-thread clocks ---- */
typedef struct { uint64_t now; rng_t r; uint64_t gran; long n, opn; int op; } clk_t;
static clk_t C[NT];
static uint64_t span;
static void clocks_init(void)
{
	static const int k[] = { 1, 2, 3, 5 };
	for (int i = 0; i < NT; i++) {
		rng_t r = { P.clkseed + (uint64_t)i * 7919 };
		C[i].r.s = rng_next(&r); C[i].now = P.t0 + rng_n(&r, 1000000); C[i].gran = (uint64_t)P.gran * (uint64_t)k[rng_n(&r, 4)];
		C[i].n = C[i].opn = 0;
	}
}
static int clk_of(void) { co *c = cur; while (c->counting) c = &thr[c->owner]; return c->ctx & (NT - 1); }
static void timer_cb(void *arg, uint64_t *out)
{
	(void)arg;
	clk_t *c = &C[clk_of()];
	if (P.work) work_stamp();
	seg_t *s = NULL; uint64_t d;
	for (int i = 0; i < P.nseg; i++) if (P.seg[i].op == c->op && c->opn >= P.seg[i].skip && c->opn < P.seg[i].skip + P.seg[i].n) { s = &P.seg[i]; break; }
	c->n++; c->opn++;
	d = (uint64_t)P.base + rng_n(&c->r, (uint64_t)(P.spread ? P.spread : 1)) + 1;
	if (s) switch (s->kind) {
	case 1: d = 0; break;
	case 11: d = s->a > 0 ? (uint64_t)s->a : 7; break;
	case 12: d = (uint64_t)P.base + ((c->opn & 1) ? (uint64_t)s->a : (uint64_t)s->b); break;
	case 15: d = (uint64_t)(s->a > 0 ? s->a : 1) + rng_n(&c->r, (uint64_t)(s->b > 0 ? s->b : 2)); break;
	case 8: c->now -= 1000 * c->gran; d = 0; break;
	}
	c->now += d * c->gran; span += d;
	*out = c->now;
	hist_u64(c->now);
	if (c->opn > 3000000) viol("nonterm", "op %d does not terminate: %ld time stamps taken", c->op, c->opn);
}

static uint64_t fnv(const void *p, size_t n) { uint64_t h = 0xcbf29ce484222325ULL; for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char *)p)[i]; h *= 0x100000001b3ULL; } return h; }
static struct jent_notime_thread NTH;
static char *bufs[NT]; static long blk_ts;

static long faults_of(int op) { long n = 0; for (int i = 0; i < P.nf; i++) if (P.f[i].op == op && strcmp(P.f[i].kind, "steady")) n++; return n; }
static int segs_of(int op) { for (int i = 0; i < P.nseg; i++) if (P.seg[i].op == op) return 1; return 0; }

/* a counting-thread handler of the application's own, with a context of its own making */
static struct { char *page, *ctx; int live, running; pthread_t id; } H[64]; static int nH, custom; static long h_ctxsz;
static int h_find(void *c) { for (int i = 0; i < nH; i++) if (H[i].ctx == c) return i; viol("handler", "the application's timer handler was given a context it never created"); return 0; }
static int h_init(void **ctx)
{
	long v; int i;
	stat_add("ev.handler_init", 1);
	if (w_fault("ntinit", &v)) { stat_add("fault.handler_init", 1); return -ENOMEM; }
	for (i = 0; i < nH && H[i].ctx; i++) ;
	if (i == 64) viol("leak-mem", "contexts of the application's timer handler pile up");
	if (i == nH) { nH++; H[i].page = (char *)__real_mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); __real_mprotect(H[i].page + 4096, 4096, PROT_NONE); }
	H[i].ctx = H[i].page + 4096 - h_ctxsz; memset(H[i].ctx, 0x05, (size_t)h_ctxsz); H[i].live = 1; H[i].running = 0;
	*ctx = H[i].ctx;
	return 0;
}
static void h_fini(void *c)
{
	if (!c) return;
	int i = h_find(c);
	if (H[i].running) viol("thread-leak", "the application's timer handler was torn down while its thread runs");
	for (long k = 0; k < h_ctxsz; k++) if (H[i].ctx[k] != 0x05) viol("handler", "the context of the application's timer handler was modified");
	H[i].ctx = NULL; H[i].live = 0; stat_add("ev.handler_fini", 1);
}
int __wrap_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __wrap_pthread_join(pthread_t, void **);
static int h_start(void *c, jent_notime_start_routine r, void *a)
{
	int i = h_find(c), k;
	if (H[i].running) viol("thread-leak", "the application's timer handler was started twice without a stop");
	k = __wrap_pthread_create(&H[i].id, NULL, r, a);
	if (!k) H[i].running = 1;
	return k ? -k : 0;
}
static void h_stop(void *c)
{
	if (!c) return;
	int i = h_find(c);
	if (H[i].running) { __wrap_pthread_join(H[i].id, NULL); H[i].running = 0; }
}
static struct jent_notime_thread HND = { h_init, h_fini, h_start, h_stop };

static void on_pin(void)
{
	if (custom) {
		if (last_pin != cfg_cpu || !cur->counting) viol("pin", "the thread of the application's own timer handler was moved to CPU %ld, which nobody asked for", last_pin);
		return;
	}
	if (cfg_cpu >= 65536) viol("pin", "the counting thread was pinned to CPU %ld instead of the one asked for, %ld, which does not exist", last_pin, cfg_cpu);
	long want = cfg_cpu >= 0 ? cfg_cpu : P.aff_sparse == 2 ? -1 : w_cpu_number(P.ncpu - 1);
	if (!cur->counting) viol("pin", "a thread other than the counting thread was pinned to a CPU");
	if (want >= 0 && last_pin != want) viol("pin", "the counting thread was pinned to CPU %ld, expected %ld", last_pin, want);
	stat_add("ev.pinned", 1);
}
int __real_sched_setaffinity_sim(int);
void con_pin_hook(void) { cur->pinned = 1; on_pin(); }
void con_counted(co *c)
{
	if (c->pinned || P.aff_sparse == 2) return;
	if (cfg_cpu >= 0 ? cfg_cpu < 65536 : !custom) viol("pin", "a counting thread ran without being assigned to CPU %ld", cfg_cpu >= 0 ? cfg_cpu : w_cpu_number(P.ncpu - 1));
}

/* host properties in a status document: the same whoever asks first, and whoever asks meanwhile */
static void check_host(int op, const json_t *j)
{
	unsigned b0 = w_cache_bits(0), b1 = w_cache_bits(1);
	long long l1 = json_num(j, "runtimeEnvironment.cpuCache.l1Bytes", -1), la = json_num(j, "runtimeEnvironment.cpuCache.allBytes", -1);
	if (l1 != (b0 ? 1LL << b0 : 0) || la != (b1 ? 1LL << b1 : 0)) viol("status-field", "op %d: status reports caches of %lld/%lld bytes, the host has %lld/%lld", op, l1, la, b0 ? 1LL << b0 : 0, b1 ? 1LL << b1 : 0);
}
static int done[NT], kat_gen, kat_first;	/* kat_first: broken since before anything else happened */

static void check_work(op_t *o, const char *n, long ret, unsigned fl, int osr, int internal)
{
	if ((fl & (1 << 2)) && !(fl & F_NTG1)) return;
	if (cur->n_part) viol("work", "op %d %s: %ld time stamps were taken before the memory accesses to be timed were complete", o->id, o->name, cur->n_part);
	if ((n[0] == 'r' || !strcmp(n, "safe")) && ret > 0 && cur->op_w < 128L * 256 * osr * ((ret + 31) / 32))
		viol("work", "op %d %s: %ld bytes were delivered after only %ld memory accesses", o->id, o->name, ret, cur->op_w);
	if (internal) return;
	if (n[0] == 'r' && ret > 0 && cur->n_full < cur->n_st / 17 - 1)
		viol("work", "op %d %s: %ld time stamps but only %ld full rounds of memory accesses", o->id, o->name, cur->n_st, cur->n_full);
	if (!strncmp(n, "init", 4) && !ret && !(fl & F_FORCE_INT) && cur->n_full < 1024)
		viol("work", "op %d %s: the start-up test passed after only %ld full rounds of memory accesses", o->id, o->name, cur->n_full);
	if (!strcmp(n, "alloc") && ret && (fl & F_NTG1)) {
		stat_add("ev.ntg1_work", 1);
		if (cur->n_triple < 240L * osr) viol("work", "op %d: the memory access source of an NTG.1 start-up was timed with its full work only %ld times", o->id, cur->n_triple);
		if (cur->n_short > 17 * (cur->n_full - cur->n_triple) + 100) viol("work", "op %d: %ld measurements of an NTG.1 start-up timed no work at all", o->id, cur->n_short - 17 * (cur->n_full - cur->n_triple));
	}
}
static int health_code(long r) { return (r <= -2 && r >= -10 && r != E_NOTIME); }
static void check_account(int op, const json_t *j, int own, int sl)
{
	long i = json_num(j, "output.invocations", -1), b = json_num(j, "output.bytes", -1);
	if (i != S[own][sl].inv || b != S[own][sl].bytes) viol("account", "op %d: status counts %ld requests and %ld bytes, completed were %ld and %ld", op, i, b, S[own][sl].inv, S[own][sl].bytes);
}
static void fail_cb(struct rand_data *ec, unsigned mask)
{
	int t = cur->ctx & (NT - 1);
	stat_add("ev.callback", 1);
	if (cur->counting) viol("cb-wrong", "the failure callback ran on the counting thread");
	if (!ec || !mask) viol("cb-null", "failure callback invoked without an instance or an alarm");
	cb_n[t]++; cb_mask[t] |= mask;
	if (in_cb) return;
	in_cb++;
	if (P.clkseed & 1) { static char b[NT][4096]; json_t j; if (jent_status(ec, b[t], 4096) || json_parse(b[t], &j)) viol("status-invalid", "status taken inside the failure callback is not valid"); }
	in_cb--;
}
static int waited(co *c) { return C[c->w_thr].n >= c->w_n || done[c->w_thr]; }
static void do_op(op_t *o, int t)
{
	int sl = (int)(o->a[0] & (NS - 1)); int own = t; long ret = 0; uint64_t h = 0; int is_x = o->name[0] == 'x';
	unsigned fl = 0; int kat0 = w_kat_now, kg = kat_gen; int ran = 1, must_int = 0, no_int = 0; long ts0 = C[t].n;
	if (is_x) own = 0;
	struct rand_data **pe = &S[own][sl].ec;
	op_start[t] = sc_acc; cb_n[t] = 0; cb_mask[t] = 0; w_op_begin(o->id); C[t].op = o->id; C[t].opn = 0;
	cur->slices = cur->creates = cur->create_fail = cur->yields = 0; cur->op_w = cur->iv_w = cur->n_full = cur->n_part = cur->n_triple = cur->n_short = cur->n_st = 0; cur->iv_a = sc_acc; cur->attrs = 0; cur->st_from = cur->st_len = 0;
	for (int i = 0; i < P.nf; i++) if (P.f[i].op == o->id && !strcmp(P.f[i].kind, "steady")) { cur->st_from = P.f[i].ord; cur->st_len = P.f[i].cnt; }
	const char *n = is_x ? o->name + 1 : o->name;
	tr("[%d] op %d %s %ld %ld %ld", t, o->id, o->name, o->a[0], o->a[1], o->a[2]);
	int clean = !faults_of(o->id) && !segs_of(o->id) && !cur->st_len && !any_kat;
	if ((!strncmp(n, "init", 4) && !((n[4] ? o->a[1] : 0) & (F_DIS_INT | F_NTG1))) || (!strcmp(n, "alloc") && !(o->a[2] & (F_DIS_INT | F_NTG1))) || n[0] == 's')
		if (faults_of(o->id) || segs_of(o->id) || any_kat) maybe_forced = 1;
	if (!strcmp(n, "init") || !strcmp(n, "initex")) {
		fl = n[4] ? (unsigned)o->a[1] : 0;
		ret = n[4] ? jent_entropy_init_ex((unsigned)o->a[0], fl) : jent_entropy_init();
		init_done[t] = 1;
		if (!ret && n_init_order < NT) { int k = 0; while (k < n_init_order && init_order[k] != t) k++; if (k == n_init_order) init_order[n_init_order++] = t; }
		if (ret) not_stable(t);
		no_int = !!(fl & (F_NTG1 | F_DIS_INT)); must_int = !ret && (fl & F_FORCE_INT) && !no_int;
		if (must_int) forced = 1;
		if (ret && clean && P.spread && !((P.pin == 1 || maybe_forced) && P.ncpu < 2) && !((fl & F_FORCE_INT) && no_int) && !(no_int && (forced || P.pin == 1 || maybe_forced)))
			viol("init-refused", "op %d: start-up test on a sound clock failed with %ld", o->id, ret);
		if (!ret && !P.spread && !(P.ncpu > 1)) viol("init-passed", "op %d: start-up test passed on a clock that does not vary", o->id);
	} else if (!strcmp(n, "alloc")) {
		fl = (unsigned)o->a[2];
		if (*pe) { ran = 0; goto out; }
		struct rand_data *ec = jent_entropy_collector_alloc((unsigned)o->a[1], fl);
		*pe = ec; S[own][sl].flags = fl; S[own][sl].internal = S[own][sl].alarmed = S[own][sl].dead = S[own][sl].perm = 0; S[own][sl].inv = S[own][sl].bytes = 0; S[own][sl].failed_at = -1; S[own][sl].osr0 = (int)(o->a[1] < 3 ? 3 : o->a[1]);
		ret = !!ec; init_done[t] = 1;
		if (!ec) not_stable(t);
		no_int = !!(fl & (F_NTG1 | F_DIS_INT)); must_int = ec && (fl & F_FORCE_INT) && !no_int;
		if (ec && !P.spread && P.ncpu < 2) viol("gate-bypass", "op %d: an instance was handed out although no start-up test can have passed", o->id);
		if (ec && kat0 && kat_first) viol("gate-bypass", "op %d: an instance was handed out although the conditioning self test cannot pass", o->id);
		if (ec && forced && no_int && phase != 1) viol("alloc-granted", "op %d: allocation without internal timer granted although the process depends on it", o->id);
		if (!ec && clean && P.spread && !((P.pin == 1 || maybe_forced) && P.ncpu < 2) && !((fl & F_FORCE_INT) && no_int) && !(no_int && (forced || P.pin == 1 || maybe_forced)))
			viol("alloc-refused", "op %d: allocation refused on a sound clock", o->id);
		if (ec) {
			char *b = bufs[t]; json_t j; const char *v;
			if (jent_status(ec, b, 4096) || json_parse(b, &j)) viol("status-invalid", "op %d: invalid status document", o->id);
			check_host(o->id, &j); check_account(o->id, &j, own, sl);
			v = json_get(&j, "configuration.internalTimer"); S[own][sl].internal = v && !strcmp(v, "true");
			h = fnv(b, strlen(b));
			if (fl & (F_SECMEM | F_FIPS | F_NTG1)) w_check_maps(o->id, "after allocation");
			if (S[own][sl].internal && no_int) viol("int-used", "op %d: an instance that must not use the internal timer runs on it", o->id);
			if (json_num(&j, "configuration.osr", 0) != S[own][sl].osr0 + json_num(&j, "reinitializations", 0)) not_stable(t);
			must_int = S[own][sl].internal;
			if (json_num(&j, "reinitializations", 0)) stat_add(must_int ? "ev.reinit_int" : "ev.reinit", 1);
		}
	} else if (!strcmp(n, "read") || !strcmp(n, "safe")) {
		unsigned char *b = (unsigned char *)bufs[t]; size_t len = (size_t)o->a[1];
		if (!*pe || len > 4000) { ran = 0; goto out; }
		fl = S[own][sl].flags; no_int = !!(fl & (F_NTG1 | F_DIS_INT));
		memset(b, 0xa5, 4096);
		long before = S[own][sl].failed_at >= 0;
		ret = n[0] == 'r' ? jent_read_entropy(*pe, (char *)b, len) : jent_read_entropy_safe(pe, (char *)b, len);
		for (size_t i = len; i < 4096; i++) if (b[i] != 0xa5) viol("overflow", "op %d: read wrote beyond the caller's %zu byte buffer", o->id, len);
		if (ret > 0) h = fnv(b, len);
		if (is_x && !phase && ret > 0) blk_ts = C[t].n - ts0;
		if (ret >= 0 && ret != (long)len) viol("false-error", "op %d: read of %zu bytes returned %ld", o->id, len, ret);
		must_int = S[own][sl].internal && ret > 0 && !(n[0] == 's');
		if (before && len && ret != E_SELF && !(ret == E_NOTIME && cur->create_fail)) viol(ret > 0 ? "selftest-lost" : "selftest-code", "op %d: read returned %ld on an instance whose self test had failed before", o->id, ret);
		if (!before && is_x && ret > 0 && S[own][sl].failed_at >= 0) {
			long since = C[t].n - S[own][sl].failed_at;
			if (since > 2 * blk_ts + 100) viol("selftest-lost", "op %d: read went on for %ld time stamps after the instance's self test failed", o->id, since);
		}
		if (ret < 0 && clean && P.spread && !is_x && !S[own][sl].alarmed) viol("false-error", "op %d: read on a sound clock failed with %ld", o->id, ret);
		if (ret < 0) S[own][sl].alarmed = 1;
		if (ret > 0 && S[own][sl].perm) viol("resurrected", "op %d: instance produced output after a permanent failure (code %d)", o->id, S[own][sl].perm);
		if (ret > 0 && S[own][sl].dead && n[0] == 'r') viol("resurrected", "op %d: instance produced output although it is in an error state", o->id);
		if (ret >= 0 && n[0] == 's' && len) S[own][sl].dead = 0;
		if (ret >= 0 && (len || n[0] == 'r')) { S[own][sl].inv++; S[own][sl].bytes += (long)len; }
		if (n[0] == 'r' && ret > 0 && !S[own][sl].internal && cur->creates) viol("status-field", "op %d: the instance ran on the internal timer while its status said it does not", o->id);
		if (health_code(ret)) {
			stat_add(S[own][sl].internal ? "ev.alarm_int" : "ev.alarm", 1);
			if (!(fl & (F_FIPS | F_NTG1))) viol("false-error", "op %d: a health alarm (%ld) outside the compliance modes", o->id, ret);
			if (cb_on && !S[own][sl].dead && !cb_n[t]) viol("cb-missed", "op %d: health alarm %ld was never reported to the failure callback", o->id, ret);
			S[own][sl].dead = 1;
			if (ret <= -6 && ret != -9) S[own][sl].perm = (int)ret;
		}
		if (n[0] == 'r' && cb_n[t] && !health_code(ret)) viol("cb-wrong", "op %d: the failure callback was invoked (0x%x) although the read returned %ld", o->id, cb_mask[t], ret);
		if (ret < 0 && n[0] == 's' && ret != E_NOTIME) not_stable(t);
		if (*pe && n[0] == 's') {
			char *d = bufs[t] + 4096; json_t j;
			if (jent_status(*pe, d, 4096) || json_parse(d, &j)) viol("status-invalid", "op %d: invalid status document", o->id);
			check_account(o->id, &j, own, sl);
			if (json_num(&j, "reinitializations", 0)) stat_add(S[own][sl].internal ? "ev.reinit_int" : "ev.reinit", 1);
			if (json_num(&j, "configuration.osr", 0) != S[own][sl].osr0 + json_num(&j, "reinitializations", 0)) not_stable(t);
			if ((fl & (F_SECMEM | F_FIPS | F_NTG1)) && ret >= 0) w_check_maps(o->id, "after a recovering read");
			const char *v = json_get(&j, "configuration.internalTimer"); S[own][sl].internal = v && !strcmp(v, "true");
			if (S[own][sl].internal && no_int) viol("int-used", "op %d: an instance that must not use the internal timer runs on it", o->id);
		}
	} else if (!strcmp(n, "wait")) {	/* until thread a[0] has taken a[1] time stamps, or has ended */
		int w = (int)o->a[0] & (NT - 1); ran = 0;
		if (sched_on) { cur->w_thr = w; cur->w_n = o->a[1]; sc_cond = waited; sc_wait(); }
	} else if (!strcmp(n, "status")) {
		char *b = bufs[t]; json_t j;
		if (!*pe) { ran = 0; goto out; }
		ret = jent_status(*pe, b, 4096);
		if (ret || json_parse(b, &j)) viol("status-invalid", "op %d: invalid status document", o->id);
		check_host(o->id, &j); check_account(o->id, &j, own, sl);
		h = fnv(b, strlen(b));
	} else if (!strcmp(n, "selftest") || !strcmp(n, "self")) {
		if (!*pe) { ran = 0; goto out; }
		int k0 = w_kat_now;
		ret = jent_selftest(o->a[1] ? *pe : NULL);
		if (k0 && kg == kat_gen && !ret) viol("selftest-verdict", "op %d: self test passed on a broken conditioning component", o->id);
		if (!any_kat && ret) viol("selftest-verdict", "op %d: self test of a sound component failed", o->id);
		if (ret && o->a[1] && S[own][sl].failed_at < 0) S[own][sl].failed_at = C[1].n;
	} else if (!strcmp(n, "free")) {
		if (!*pe) { ran = 0; goto out; }
		jent_entropy_collector_free(*pe); *pe = NULL;
	} else if (!strcmp(n, "kat")) { w_kat_set((int)o->a[0]); kat_first = !kat_gen++ && o->a[0] && !phase && !init_done[0]; if (o->a[0]) stat_add("fault.constant_bitflip", 1); ran = 0; }
	else if (!strcmp(n, "setcpu")) {
		ret = jent_entropy_set_notime_cpu((unsigned long)o->a[0]);
		if (ret != (init_done[t] || phase > 0 ? -EAGAIN : 0)) viol("cfg-window", "op %d: setting the timer CPU returned %ld", o->id, ret);
		if (!ret) cfg_cpu = o->a[0];
	} else if (!strcmp(n, "setcb")) {
		ret = jent_set_fips_failure_callback(o->a[0] ? fail_cb : NULL);
		if (ret != (init_done[t] || phase > 0 ? -EAGAIN : 0)) viol("cfg-window", "op %d: setting the callback returned %ld", o->id, ret);
		if (!ret) cb_on = o->a[0] != 0;
	} else if (!strcmp(n, "switchnt")) {
		if (o->a[0] == 3) h_ctxsz = 1 + o->a[1] % 64;
		ret = jent_entropy_switch_notime_impl(o->a[0] == 3 ? &HND : NULL);
		if (o->a[0] == 3 && !ret) custom = 1;
		if (ret != (init_done[t] || phase > 0 ? -EAGAIN : o->a[0] == 3 ? 0 : -EINVAL)) viol("cfg-window", "op %d: replacing the timer handler returned %ld", o->id, ret);
	} else ran = 0;
out:
	tr("[%d]   op %d -> %ld (%016llx, %ld stamps, %ld thread(s) created)", t, o->id, ret, (unsigned long long)h, C[t].n - ts0, cur->creates);
	if (cur->attrs > 0) viol("thread-leak", "op %d %s returned with a thread's attributes not released", o->id, o->name);
	if (P.work) check_work(o, n, ret, fl, S[own][sl].ec ? S[own][sl].osr0 : 1, S[own][sl].internal);
	if (sched_live_counting(cur->id)) viol("thread-leak", "op %d %s returned while its counting thread is still there", o->id, o->name);
	if (no_int && cur->creates) viol("int-used", "op %d %s started a counting thread although the internal timer is forbidden", o->id, o->name);
	if (cur->creates && !custom && w_ncpu_model() < 2) viol("int-onecpu", "op %d %s started a counting thread although there is only one processor for it and its user", o->id, o->name);
	if (must_int && ran && !cur->creates) viol("int-unused", "op %d %s delivered without a counting thread although it depends on the internal timer", o->id, o->name);
	if (ran && cur->creates && cur->creates == cur->create_fail) {
		int bad = !strcmp(n, "alloc") ? ret : !strncmp(n, "init", 4) ? !ret : ret >= 0;
		if (bad) viol("create-unreported", "op %d %s reported success although no counting thread could be created", o->id, o->name);
	}
	if (ran && nrec[t] < 128) { struct rec *r = &rec[t][nrec[t]++]; r->op = o->id; r->ret = ret; r->hash = h; r->ts = C[t].n - ts0; r->end = sc_acc; }
	hist_u64((uint64_t)ret); hist_u64(h);
	state_seen((uint64_t)(unsigned char)o->name[0] * 131 + (uint64_t)(unsigned char)o->name[1] + (uint64_t)(ret < 0 ? -ret : !!ret) * 7 + (uint64_t)(cur->creates > 3 ? 3 : cur->creates) * 1009 + (uint64_t)cur->create_fail * 31337 + (uint64_t)(fl & 0x1f8) * 65537);
	w_op_end();
}
static int first_w, last_w, maxthr;
static void run_thread_ops(int t) { for (int i = 0; i < P.nop; i++) if (P.op[i].thr == t) do_op(&P.op[i], t); }
static void *worker(void *arg) { run_thread_ops((int)(long)arg); done[(int)(long)arg] = 1; return NULL; }
static void setup(void)
{
	sched_reset(); clocks_init();
	for (int i = 0; i < NT; i++) if (!bufs[i]) bufs[i] = malloc(8192);
	sc_starvep = (int)P.rndmode; sc_rv = P.rv;
	jent_set_mock_timer(timer_cb, NULL);
	for (int i = 0; i < P.nop; i++) if (P.op[i].thr == 0 && i < first_w) do_op(&P.op[i], 0);
}

/* ---- the same thread alone ---- */
typedef struct { int n, unstable, died; struct rec r[128]; } solo_t;
static void solo(int t, int cand, solo_t *out)
{
	int pf[2]; memset(out, 0, sizeof *out);
	if (pipe(pf)) _exit(9);
	fflush(stderr);
	pid_t c = fork();
	if (!c) {
		close(pf[0]);
		int save = rep_fd; rep_fd = -1; (void)save; trace_on = 0;
		setup();
		if (cand) {	/* whose start-up test came first in the process */
			for (int i = 0; i < P.nop; i++) if (P.op[i].thr == cand && !strncmp(P.op[i].name, "init", 4)) {
				cur->ctx = cand; w_ctx_select(cand); do_op(&P.op[i], cand); break; }
			/* its clock and its random source start over */
			if (cand == t) { clocks_init(); nrec[t] = 0; }
		}
		nrec[t] = 0;
		co *w = co_new(worker, (void *)(long)t); w->worker = 1; w->ctx = t;
		co_run_all(1);
		solo_t s; memset(&s, 0, sizeof s); s.n = nrec[t]; s.unstable = unstable; memcpy(s.r, rec[t], sizeof s.r);
		size_t off = 0; while (off < sizeof s) { ssize_t k = write(pf[1], (char *)&s + off, sizeof s - off); if (k <= 0) break; off += (size_t)k; }
		_exit(0);
	}
	close(pf[1]);
	size_t off = 0; ssize_t k; extern ssize_t __real_read(int, void *, size_t);
	while (off < sizeof *out && (k = __real_read(pf[0], (char *)out + off, sizeof *out - off)) > 0) off += (size_t)k;
	if (off < sizeof *out) { memset(out, 0, sizeof *out); out->died = 1; }
	close(pf[0]); int st; waitpid(c, &st, 0);
}

static int first_op(int t) { for (int i = 0; i < P.nop; i++) if (P.op[i].thr == t) return i; return -1; }
/* a process forked before anything happened, which runs single threads alone on request */
static int zq[2] = { -1, -1 }, za[2]; static pid_t zpid;
extern void (*at_run_end)(void); extern ssize_t __real_read(int, void *, size_t);
static void zygote_stop(void) { int st; if (zq[1] >= 0) { close(zq[1]); close(za[0]); waitpid(zpid, &st, 0); zq[1] = -1; } }
static void full_write(int fd, const void *p, size_t n) { size_t o = 0; while (o < n) { ssize_t k = write(fd, (const char *)p + o, n - o); if (k <= 0) _exit(0); o += (size_t)k; } }
static int full_read(int fd, void *p, size_t n) { size_t o = 0; while (o < n) { ssize_t k = __real_read(fd, (char *)p + o, n - o); if (k <= 0) return -1; o += (size_t)k; } return 0; }
static void zygote_start(void)
{
	if (pipe(zq) || pipe(za)) _exit(9);
	zpid = fork();
	if (!zpid) {
		close(zq[1]); close(za[0]);
		int r[2]; static solo_t s;
		while (!full_read(zq[0], r, sizeof r)) { solo(r[0], r[1], &s); full_write(za[1], &s, sizeof s); }
		_exit(0);
	}
	close(zq[0]); close(za[1]); at_run_end = zygote_stop;
}
static void ask(int t, int c, solo_t *s) { int r[2] = { t, c }; full_write(zq[1], r, sizeof r); if (full_read(za[0], s, sizeof *s)) s->died = 1; }

void sim_run(void)
{
	first_w = P.nop; maxthr = 0;
	for (int i = 0; i < P.nop; i++) {
		if (P.op[i].thr) { if (i < first_w) first_w = i; last_w = i; if (P.op[i].thr > maxthr && P.op[i].thr < NT) maxthr = P.op[i].thr; }
		if (!strcmp(P.op[i].name, "kat") && P.op[i].a[0]) any_kat = 1;
		if (!strcmp(P.op[i].name, "xread") || !strcmp(P.op[i].name, "xself")) any_fault |= 2;
		if (((unsigned)P.op[i].a[1] | (unsigned)P.op[i].a[2]) & F_FORCE_INT) if (!strcmp(P.op[i].name, "initex") || !strcmp(P.op[i].name, "alloc")) any_fault |= 4;
	}
	P.pin = any_fault & 4 ? 1 : 0;
	int have_init = 0, cmp = !(any_fault & 6) && !any_kat && maxthr > 0;
	if (P.ncpu > 1 && (P.nseg || P.nf)) cmp = 0;	/* a hostile clock could switch the process to the internal timer */
	for (int i = 0; i < first_w && i < P.nop; i++) if (!strncmp(P.op[i].name, "init", 4)) have_init = 1;
	if (cmp && !have_init)	/* every thread needs its own start-up test first unless the process is set up already */
		for (int t = 1; t <= maxthr; t++) { int k = first_op(t); if (k >= 0 && strncmp(P.op[k].name, "init", 4)) cmp = 0; }
	if (cmp) zygote_start();
	setup();
	phase = 1;
	if (S[0][0].ec) { sc_hot_lo = S[0][0].ec; sc_hot_hi = (char *)S[0][0].ec + 768; }
	for (int t = 1; t <= maxthr; t++) { co *w = co_new(worker, (void *)(long)t); w->worker = 1; w->ctx = t; }
	sc_conc = 1; sched_on = 1;
	if (maxthr) co_run_all(maxthr);
	sched_on = 0; sc_conc = 0;
	phase = 2; w_ctx_select(0);
	if (cmp) {
		char why[200] = ""; int ok = 0, stable = 1;
		for (int k = have_init ? -1 : 0; !ok && stable && k < (have_init ? 0 : n_init_order); k++) {
			int c = have_init ? 0 : init_order[k]; ok = 1;
			for (int t = 1; t <= maxthr && ok; t++) {
				static solo_t s;
				if (first_op(t) < 0) continue;
				ask(t, c, &s);
				if (s.died) { stable = 0; ok = 0; break; }
				for (int i = 0; i < nrec[t]; i++) {
					struct rec *a = &rec[t][i], *b = &s.r[i];
					if (a->end > stable_until) break;	/* a failed start-up test may have changed the process-wide verdict */
					if (i >= s.n || a->op != b->op || a->ret != b->ret || a->hash != b->hash || a->ts != b->ts) {
						snprintf(why, sizeof why, "thread %d op %d: result %ld/%016llx after %ld time stamps, alone %ld/%016llx after %ld", t, a->op, a->ret, (unsigned long long)a->hash, a->ts, b->ret, (unsigned long long)b->hash, b->ts);
						ok = 0; break;
					}
				}
			}
		}
		if (stable) { stat_add("ev.compared", 1); if (!ok && why[0]) viol(have_init ? "interference" : "divisor", "%s", why); }
	}
	for (int i = last_w + 1; i < P.nop; i++) if (P.op[i].thr == 0 && i > first_w) do_op(&P.op[i], 0);
	/* everybody's identity is their own */
	for (int a = 0; a < NT * NS; a++) for (int b = 0; b < a; b++) {
		struct rand_data *x = S[a / NS][a % NS].ec, *y = S[b / NS][b % NS].ec; char ux[64], uy[64];
		if (x && y && x == y) viol("interference", "two threads were handed the same instance");
		if (x && y && !jent_uuid(x, ux, sizeof ux) && !jent_uuid(y, uy, sizeof uy) && !strcmp(ux, uy) && strncmp(ux, "00000000", 8)) viol("uuid", "two instances carry the same identifier");
	}
	w_op_begin(-5);
	for (int a = 0; a < NT * NS; a++) if (S[a / NS][a % NS].ec) jent_entropy_collector_free(S[a / NS][a % NS].ec);
	w_check_quiesced("at the end of the run");
	for (int i = 0; i < nH; i++) if (H[i].ctx) viol("leak-mem", "a context of the application's timer handler was never torn down");
	for (int i = 1; i < nco; i++) if (thr[i].state != CO_FREE) viol("thread-leak", "a thread is left at the end of the run");
	stat_add("simtime_ns", span); stat_add("switches", (uint64_t)sc_switches); stat_add("accesses", (uint64_t)sc_acc);
	stat_add("threads_created", (uint64_t)sc_creates); (void)cur_hash_ops; (void)NTH;
}
