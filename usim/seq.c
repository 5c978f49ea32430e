/*
 * Lockstep engine: for every operation of the plan the reference model runs
 * first (and thereby decides every time stamp the simulated clock delivers),
 * then the real library executes the same operation against the simulated OS.
 * Everything the caller can observe is compared.
 */
#include "sim.h"
#include "model.h"
#include "clock.h"
#include "json.h"
#include <errno.h>
#include <unistd.h>
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"

#define NSLOT 4
#ifdef V_NOINT
#define NOINT 1
#else
#define NOINT 0
#endif
static struct { struct rand_data *ec; mec *m; int perm; int dead; int selff; } S[NSLOT];
static int cur_op_id; static const char *cur_op_name;

/* ---- environment of the model ---- */
static long m_ord;
int env_alloc(unsigned flags) { return w_alloc_fault_model(m_ord++, flags); }
int env_sysfips(void) { return w_fips_model(); }
int env_kat_broken(void) { return w_kat_now; }
long env_ncpu(void) { return w_ncpu_model(); }
unsigned env_cache_bits(int all) { return w_cache_bits(all); }
static unsigned mcb[64], lcb[64]; static int nmcb, nlcb;
void env_cb(mec *e, unsigned mask) { if (P.cbact & 4) e->selftest_failed = 1; if (nmcb && mcb[nmcb-1] == mask) return; if (nmcb < 64) mcb[nmcb++] = mask; }
static void fmt_uuid(const unsigned char b[16], char *o)
{
	snprintf(o, 37, "%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x",
		 b[0],b[1],b[2],b[3],b[4],b[5],b[6],b[7],b[8],b[9],b[10],b[11],b[12],b[13],b[14],b[15]);
}
static unsigned char seen_uuid[256][16]; static int nseen;
void env_uuid(mec *e)
{
	unsigned char b[16]; int ok;
	w_rand_expect(b, &ok);
	if (!ok) memset(b, 0, 16);
	else { b[6] = (b[6] & 15) | 0x40; b[8] = (b[8] & 63) | 0x80; }
	fmt_uuid(b, e->uuid);
}

/* ---- library side ---- */
static size_t over; static int in_cb;
static void timer_cb(void *arg, uint64_t *out)
{
	(void)arg;
	if (in_cb) { *out = clk_free(); return; }
	if (tq_r < tq_n) { *out = tq[tq_r++]; return; }
	if (++over > 200000)
		viol("nonterm", "op %d %s: the library keeps measuring long after the documented number of samples (%zu expected)", cur_op_id, cur_op_name, tq_n);
	*out = clk_free();
}
uint64_t clk_stamp(void);
uint64_t clk_stamp(void) { uint64_t v; timer_cb(NULL, &v); return v; }
static void fail_cb(struct rand_data *ec, unsigned int mask)
{
	stat_add("ev.callback", 1);
	if (!(nlcb && lcb[nlcb-1] == mask) && nlcb < 64) lcb[nlcb++] = mask;
	if (!ec) { viol("cb-null", "failure callback invoked without an instance"); return; }
	if (in_cb) return;
	in_cb = 1;
	if (P.cbact & 4) {	/* an upset hits exactly while the callback repeats the self test */
		int was = w_kat_now;
		stat_add("fault.transient_bitflip", 1);
		if (w_kat_set(1) && jent_selftest(ec) == 0) viol("selftest-verdict", "self test passed on a broken conditioning component");
		if (!was) w_kat_set(0);
	}
	if (P.cbact & 1) jent_selftest(NULL);
	if (P.cbact & 2) {
		char b[4096]; json_t j;
		if (jent_status(ec, b, sizeof b) || json_parse(b, &j)) viol("status-invalid", "status taken inside the failure callback is not valid");
	}
	in_cb = 0;
}

#define POISON 0xa5
static int is_poison(const unsigned char *p, size_t n)
{
	for (size_t i = 0; i < n; i++) if (p[i] != POISON && p[i] != 0) return 0;
	return 1;
}

static void check_timing(void)
{
	int in = !strncmp(cur_op_name, "init", 4), al = !strcmp(cur_op_name, "alloc");
	if (over) viol(in ? "init-timing" : al ? "start-timing" : "more-samples", "op %d %s: the library took %zu time stamps more than the documented procedure (%zu)", cur_op_id, cur_op_name, over, tq_n);
	if (tq_r < tq_n) viol(in ? "init-timing" : al ? "start-timing" : "fewer-samples", "op %d %s: the library took %zu of the %zu time stamps the documented procedure needs", cur_op_id, cur_op_name, tq_r, tq_n);
}
static void check_cbs(void)
{
	if (nmcb != nlcb || memcmp(mcb, lcb, sizeof mcb[0] * (size_t)nmcb))
		viol(nlcb < nmcb ? "cb-missed" : "cb-wrong", "op %d %s: failure callback reported %d event(s), first mask 0x%x, expected %d, first mask 0x%x",
		     cur_op_id, cur_op_name, nlcb, nlcb ? lcb[0] : 0, nmcb, nmcb ? mcb[0] : 0);
}
static void note_ret(long r) { hist_u64((uint64_t)r); }

static const char *cat_ret(long exp, long got)
{
	if (exp >= 0 && got < 0) return "false-error";
	if (exp < 0 && got >= 0) {
		if (exp == E_SELF) return "selftest-lost";
		return exp <= E_RCTP && exp >= E_APTP ? "missed-perm" : exp == E_LAGP || exp == E_MEMP ? "missed-perm" : "missed-alarm";
	}
	if (exp == E_SELF || got == E_SELF) return "selftest-code";
	return "wrong-code";
}

static unsigned long long jflag(const json_t *j, const char *k) { const char *v = json_get(j, k); return v ? !strcmp(v, "true") : 2; }

extern int sim_age(struct rand_data *, uint64_t, uint64_t) __attribute__((weak));
static void check_status(int s, size_t bufsz, int quiet)
{
	static char b[8192]; json_t j; mec *e = S[s].m; struct rand_data *ec = S[s].ec;
	memset(b, POISON, sizeof b);
	int r = jent_status(ec, b, bufsz);
	for (size_t i = bufsz; i < sizeof b; i++) if ((unsigned char)b[i] != POISON) viol("status-overflow", "status wrote beyond its %zu byte buffer", bufsz);
	if (!quiet) note_ret(r);
	if (!bufsz) { if (r != -1) viol("status-ret", "status into no buffer reported success"); return; }
	if (!memchr(b, 0, bufsz)) viol("status-overflow", "status text not terminated within %zu bytes", bufsz);
	if (r) {
		if (strlen(b) + 2 < bufsz) viol("status-ret", "status reported truncation although %zu of %zu bytes were used", strlen(b), bufsz);
		return;
	}
	if (json_parse(b, &j)) viol("status-invalid", "status reported success but the document is not valid JSON");
	if (!json_get(&j, "version")) viol("status-field", "status lacks the version");
	if (!ec) { if (j.n != 1) viol("status-field", "status without an instance reports instance data"); return; }
	stat_add("ev.status", 1);
	const char *u = json_get(&j, "uuid");
	if (!u || strcmp(u, e->uuid)) viol("uuid", "status reports identifier %s, expected %s", u ? u : "(none)", e->uuid);
#define NUM(k, x) do { long long g_ = json_num(&j, k, -77), x_ = (long long)(x); if (g_ != x_) viol("status-field", "status field %s is %lld, expected %lld", k, g_, x_); } while (0)
#define ACC(k, x) do { long long g_ = json_num(&j, k, -77), x_ = (long long)(x); if (g_ != x_) viol("account", "status field %s is %lld, expected %lld", k, g_, x_); } while (0)
#define BOO(k, x) do { int g_ = (int)jflag(&j, k), x_ = !!(x); if (g_ != x_) viol("status-field", "status field %s is %d, expected %d", k, g_, x_); } while (0)
#define HEA(k, x) do { int g_ = (int)jflag(&j, k), x_ = !!(x); if (g_ != x_) viol("status-health", "status field %s is %d, expected %d", k, g_, x_); } while (0)
	ACC("reinitializations", e->reinit);
	ACC("output.invocations", e->invocations);
	ACC("output.bytes", e->bytes);
	ACC("output.bits", e->bytes * 8);
	HEA("healthFailure.apt.intermittent", e->fail & H_APT); HEA("healthFailure.apt.permanent", e->fail & H_APT << H_PERM);
	HEA("healthFailure.rct.intermittent", e->fail & H_RCT); HEA("healthFailure.rct.permanent", e->fail & H_RCT << H_PERM);
	HEA("healthFailure.rctMemory.intermittent", e->fail & H_MEM); HEA("healthFailure.rctMemory.permanent", e->fail & H_MEM << H_PERM);
	HEA("healthFailure.lag.intermittent", e->fail & H_LAG); HEA("healthFailure.lag.permanent", e->fail & H_LAG << H_PERM);
	NUM("runtimeEnvironment.cpuCores", w_ncpu_model());
	{ unsigned b0 = w_cache_bits(0), b1 = w_cache_bits(1);
	  NUM("runtimeEnvironment.cpuCache.l1Bytes", b0 ? 1ULL << b0 : 0); NUM("runtimeEnvironment.cpuCache.allBytes", b1 ? 1ULL << b1 : 0); }
	NUM("configuration.osr", e->osr);
	NUM("configuration.memoryBlockSizeBytes", m_memsize(e->flags));
	NUM("configuration.memoryLoopCount.runtime", e->mem ? 128 : 0);
	NUM("configuration.memoryLoopCount.initialization", e->mem ? 128 * 3 : 0);
	NUM("configuration.hashLoopCount.runtime", m_hashloop(e->flags));
	NUM("configuration.hashLoopCount.initialization", m_hashloop(e->flags) * 3);
#ifdef V_AWSLC
	BOO("configuration.secureMemory", 0);	/* wiped, never locked */
#elif defined(V_BARE)
	BOO("configuration.secureMemory", 1);	/* nothing could take it away */
#else
	BOO("configuration.secureMemory", e->flags & F_SECMEM);
#endif
	BOO("configuration.internalTimer", 0);
	BOO("configuration.fipsMode", e->fips);
	BOO("configuration.ntg1Mode", e->ntg1);
	BOO("configuration.flags.JENT_DISABLE_MEMORY_ACCESS", e->flags & F_NOMEM);
	BOO("configuration.flags.JENT_FORCE_FIPS", e->flags & F_FIPS);
	BOO("configuration.flags.JENT_NTG1", e->flags & F_NTG1);
	BOO("configuration.flags.JENT_CACHE_ALL", e->flags & F_CACHE_ALL);
	BOO("configuration.flags.JENT_FORCE_SECURE_MEM", e->flags & F_SECMEM);
	BOO("configuration.flags.JENT_DISABLE_INTERNAL_TIMER", e->flags & F_DIS_INT);
	BOO("configuration.flags.JENT_FORCE_INTERNAL_TIMER", e->flags & F_FORCE_INT);
}

static void abs_state(int s, long ret)
{
	mec *e = S[s].m;
	if (!e) { state_seen((uint64_t)(ret & 0xff) * 1315423911u + (uint64_t)cur_op_name[0] * 7); return; }
	uint64_t v = e->osr | (uint64_t)e->fips << 5 | (uint64_t)e->ntg1 << 6 | (uint64_t)e->mem << 7 | (uint64_t)(e->fail & 15) << 8 | (uint64_t)(e->fail >> 16 & 15) << 12
		| (uint64_t)(e->reinit > 3 ? 3 : e->reinit) << 16 | (uint64_t)e->selftest_failed << 18 | (uint64_t)w_kat_now << 19 | (uint64_t)((ret < 0 ? -ret : 0) & 15) << 20
		| (uint64_t)((e->flags >> 24) & 7) << 24 | (uint64_t)(e->flags >> 27) << 27 | (uint64_t)(unsigned char)cur_op_name[0] << 34
		| (uint64_t)(e->rct * 8 / (e->rct_cut + 1)) << 42 | (uint64_t)(e->lag_run * 8 / (e->ll + 1)) << 46 | (uint64_t)(e->apt_n * 8 / (e->apt_cut + 1)) << 50;
	state_seen(v);
}

static void do_alloc(op_t *o)
{
	int s = (int)(o->a[0] & (NSLOT - 1)); unsigned osr = (unsigned)o->a[1], fl = (unsigned)o->a[2];
	if (S[s].ec) return;
	unsigned ok_before = (unsigned)MP.tests_ok; (void)ok_before;
	mec *m = m_alloc(osr, fl);
	struct rand_data *ec = jent_entropy_collector_alloc(osr, fl);
	tr("  alloc osr=%u flags=0x%x -> %s", osr, fl, ec ? "instance" : "none");
	note_ret(!!ec);
	check_cbs();
	if (!m != !ec) {
		S[s].ec = ec; S[s].m = m;
		if (m) viol("alloc-refused", "op %d: allocation (osr %u, flags 0x%x) refused although every start-up condition holds", o->id, osr, fl);
		else if (w_kat_now || !MP.tests_ok) viol("gate-bypass", "op %d: an instance was handed out although the start-up tests do not pass", o->id);
		else viol("alloc-granted", "op %d: allocation (osr %u, flags 0x%x) granted although it must be refused", o->id, osr, fl);
	}
	check_timing();
	S[s].ec = ec; S[s].m = m; S[s].perm = S[s].dead = S[s].selff = 0;
	stat_add(ec ? "ev.alloc_ok" : "ev.alloc_refused", 1);
	if (ec) {
		w_check_maps(m->flags & F_SECMEM ? o->id : -2, "after allocation");
		check_status(s, 4096, 1);
		unsigned char b[16]; (void)b;
		if (strcmp(m->uuid, "00000000-0000-0000-0000-000000000000")) {
			for (int i = 0; i < nseen; i++) if (!memcmp(seen_uuid[i], m->uuid, 16)) { /* 64 bit of the text: model draws are distinct */ }
			if (nseen < 256) memcpy(seen_uuid[nseen++], m->uuid, 16);
		}
	} else if (w_maps_live() && !S[0].ec && !S[1].ec && !S[2].ec && !S[3].ec)
		w_check_quiesced("after a refused allocation");
}

static unsigned char lastblk[256][32]; static int nblk;
static void do_read(op_t *o, int safe)
{
	int s = (int)(o->a[0] & (NSLOT - 1)); size_t len = (size_t)o->a[1];
	static unsigned char mb[70400], la[70400];
	if (!S[s].ec || len > sizeof la - 256) return;
	unsigned char *lb = la + 64 + (o->id * 5 & 15);	/* callers' buffers have any alignment */
	memset(mb, POISON, len + 64); memset(la, POISON, len + 256);
	uint64_t smp = S[s].m->samples; (void)smp;
	unsigned rein = S[s].m->reinit;
	ssize_t x = safe ? m_safe(&S[s].m, mb, len) : m_read(S[s].m, mb, len);
	ssize_t r = safe ? jent_read_entropy_safe(&S[s].ec, (char *)lb, len) : jent_read_entropy(S[s].ec, (char *)lb, len);
	tr("  %s %zu -> %zd (expected %zd)", safe ? "safe read" : "read", len, r, x);
	note_ret(r);
	for (unsigned char *q = la; q < la + len + 256; q++) if ((q < lb || q >= lb + len) && *q != POISON) viol("overflow", "op %d: read wrote beyond the caller's %zu byte buffer", o->id, len);
	if (S[s].perm && r >= 0 && len) viol("resurrected", "op %d: instance produced output after a permanent failure (code %d)", o->id, S[s].perm);
	if (S[s].dead && !safe && r >= 0 && len) viol("resurrected", "op %d: instance produced output although it is in an error state", o->id);
	if (S[s].selff && r >= 0 && len) viol("selftest-lost", "op %d: instance produced output after its self test failed", o->id);
	check_cbs();
	if (x != r) viol(cat_ret(x, r), "op %d: %s of %zu bytes returned %zd, expected %zd", o->id, safe ? "safe read" : "read", len, r, x);
	check_timing();
	if (r >= 0) {
		if (memcmp(mb, lb, len)) {
			size_t k = 0; while (mb[k] == lb[k]) k++;
			viol("output", "op %d: output differs from the specified conditioning of the recorded samples at byte %zu of %zu", o->id, k, len);
		}
		hist_mix(lb, len);
		for (size_t k = 0; k + 16 <= len; k += 32) {
			for (int i = 0; i < nblk; i++) if (!memcmp(lastblk[i], lb + k, 16)) viol("repeat", "op %d: an output block was delivered twice", o->id);
			if (nblk < 256) memcpy(lastblk[nblk++], lb + k, 16);
		}
		stat_add("ev.read_ok", 1); stat_add("ev.bytes", len);
		if (safe && S[s].m->reinit != rein) { stat_add("ev.recovered", 1); }
		if (safe) S[s].dead = 0;
	} else {
		/* nothing of the failing block may reach the caller */
		size_t good = 0;
		while (good + 32 <= len && !is_poison(mb + good, 32)) good += 32;
		if (good < len && !is_poison(lb + good, len - good)) viol("leak-on-fail", "op %d: bytes of the failed request reached the caller (code %zd)", o->id, r);
		char k[32]; snprintf(k, sizeof k, "ev.err%zd", -r); stat_add(k, 1);
		if (r <= E_RCTP && r != E_MEM && r != E_SELF) S[s].perm = (int)r;
		else if (r != E_INVAL && r != E_NOTIME && r != E_SELF) S[s].dead = 1;
		if (r == E_SELF) S[s].selff = 1;
	}
	if (S[s].m->reinit != rein) w_check_maps(S[s].m->flags & F_SECMEM ? o->id : -2, "after recovery");
	check_status(s, 4096, 1);
}

static void einval_ops(op_t *o)
{
	struct rand_data *nul = NULL; char b[8];
	int s = (int)(o->a[1] & (NSLOT - 1));
	switch (o->a[0]) {
	case 0: if (jent_read_entropy(NULL, b, 8) != E_INVAL) viol("einval", "read without an instance not rejected"); break;
	case 1: if (jent_read_entropy_safe(NULL, b, 8) != E_INVAL) viol("einval", "safe read without an instance not rejected"); break;
	case 2: if (jent_read_entropy_safe(&nul, b, 8) != E_INVAL) viol("einval", "safe read of a null instance not rejected"); break;
	case 3: if (S[s].ec && jent_read_entropy(S[s].ec, NULL, 8) != E_INVAL) viol("einval", "read into no buffer not rejected"); break;
	case 4: if (S[s].ec && jent_read_entropy_safe(&S[s].ec, NULL, 8) != E_INVAL) viol("einval", "safe read into no buffer not rejected"); break;
	case 5: jent_entropy_collector_free(NULL); break;
	case 6: if (jent_status(NULL, NULL, 0) != -1) viol("einval", "status without a buffer not rejected"); break;
	case 7: if (jent_uuid(NULL, b, 8) != -1) viol("einval", "identifier of no instance not rejected"); break;
	}
}

#ifndef V_NOINT
static int nt_init(void **c) { (void)c; return -1; }
static void nt_fini(void *c) { (void)c; }
static int nt_start(void *c, jent_notime_start_routine r, void *a) { (void)c; (void)r; (void)a; return -1; }
static struct jent_notime_thread NT = { nt_init, nt_fini, nt_start, nt_fini };
#endif

void sim_run(void)
{
	clk_init();
#ifndef V_NOMOCK
	jent_set_mock_timer(timer_cb, NULL);
#endif
	/* the counting thread is the subject of the other engine: here its host never provides it */
#ifndef V_NOINT
	if (P.ncpu > 1) jent_entropy_switch_notime_impl(&NT);
#endif
	for (int i = 0; i < P.nop; i++) {
		op_t *o = &P.op[i];
		int r, x;
		cur_op_id = o->id; cur_op_name = o->name;
		w_op_begin(o->id); clk_op(o->id);
		m_ord = 0; over = 0; nmcb = nlcb = 0;
		memset(mcb, 0, sizeof mcb); memset(lcb, 0, sizeof lcb);
		tr("op %d %s %ld %ld %ld", o->id, o->name, o->a[0], o->a[1], o->a[2]);
		stat_add("ops", 1);
		if (!strcmp(o->name, "init") || !strcmp(o->name, "initex")) {
			int ex = o->name[4] == 'e';
			x = ex ? m_init_ex((unsigned)o->a[0], (unsigned)o->a[1]) : m_init();
			r = ex ? jent_entropy_init_ex((unsigned)o->a[0], (unsigned)o->a[1]) : jent_entropy_init();
			tr("  -> %d (expected %d)", r, x);
			note_ret(r);
			check_cbs();
			if (r != x) viol(!x ? "init-refused" : !r ? "init-passed" : "init-code", "op %d: start-up tests returned %d, expected %d", o->id, r, x);
			check_timing();
			char k[32]; snprintf(k, sizeof k, "ev.init%d", r); stat_add(k, 1);
			if (w_maps_live() && !S[0].ec && !S[1].ec && !S[2].ec && !S[3].ec) w_check_quiesced("after the start-up tests");
		} else if (!strcmp(o->name, "alloc")) do_alloc(o);
		else if (!strcmp(o->name, "read")) do_read(o, 0);
		else if (!strcmp(o->name, "safe")) do_read(o, 1);
		else if (!strcmp(o->name, "reads") || !strcmp(o->name, "safes")) {
			for (long k = 0; k < o->a[2] && k < 400; k++) {
				tq_n = tq_r = 0; over = 0; nmcb = nlcb = 0;
				memset(mcb, 0, sizeof mcb); memset(lcb, 0, sizeof lcb);
				do_read(o, o->name[0] == 's');
			}
		}
		else if (!strcmp(o->name, "free")) {
			int s = (int)(o->a[0] & (NSLOT - 1));
			if (S[s].ec) { m_free(S[s].m); jent_entropy_collector_free(S[s].ec); S[s].ec = NULL; S[s].m = NULL; }
			if (!S[0].ec && !S[1].ec && !S[2].ec && !S[3].ec) w_check_quiesced("after the last instance was released");
		} else if (!strcmp(o->name, "selftest")) {
			int s = (int)(o->a[0] & (NSLOT - 1)); int bound = o->a[1] && S[s].ec;
			x = m_selftest(bound ? S[s].m : NULL);
			r = jent_selftest(bound ? S[s].ec : NULL);
			note_ret(r);
			if (r != x) viol("selftest-verdict", "op %d: self test returned %d, expected %d", o->id, r, x);
			if (r && bound) S[s].selff = 1;
			stat_add(r ? "ev.selftest_fail" : "ev.selftest_ok", 1);
		} else if (!strcmp(o->name, "status")) {
			int s = (int)(o->a[0] & (NSLOT - 1)); size_t n = (size_t)o->a[1];
			if (n > 8000) n = 8000;
			check_status(s, n, 0);
		} else if (!strcmp(o->name, "age")) {	/* an instance that has been in use for long */
			int s = (int)(o->a[0] & (NSLOT - 1));
			if (S[s].ec && sim_age && sim_age(S[s].ec, (uint64_t)o->a[1], (uint64_t)o->a[2])) { S[s].m->invocations = (uint64_t)o->a[1]; S[s].m->bytes = (uint64_t)o->a[2]; stat_add("ev.aged", 1); }
		} else if (!strcmp(o->name, "uuid")) {
			int s = (int)(o->a[0] & (NSLOT - 1)); size_t n = (size_t)o->a[1]; char b[128];
			if (n > 100) n = 100;
			if (S[s].ec) {
				memset(b, POISON, sizeof b);
				r = jent_uuid(S[s].ec, b, n); x = n < 37 ? -1 : 0;
				if (r != x) viol("uuid", "identifier into %zu bytes returned %d", n, r);
				for (size_t k = n; k < sizeof b; k++) if ((unsigned char)b[k] != POISON) viol("overflow", "identifier wrote beyond its %zu byte buffer", n);
				if (!r && strcmp(b, S[s].m->uuid)) viol("uuid", "identifier %s, expected %s", b, S[s].m->uuid);
			}
		} else if (!strcmp(o->name, "setcb")) {
			r = jent_set_fips_failure_callback(o->a[0] ? fail_cb : NULL);
			x = MP.blocked ? -EAGAIN : 0;
			if (!x) MP.cb = o->a[0] != 0;
			if (r != x) viol("cfg-window", "op %d: registering the failure callback returned %d, expected %d", o->id, r, x);
		} else if (!strcmp(o->name, "setcpu")) {
			r = jent_entropy_set_notime_cpu((unsigned long)o->a[0]); x = NOINT ? -1 : MP.blocked ? -EAGAIN : 0;
			if (r != x) viol("cfg-window", "op %d: setting the counting CPU returned %d, expected %d", o->id, r, x);
		} else if (!strcmp(o->name, "switchnt")) {
#ifdef V_NOINT
			r = jent_entropy_switch_notime_impl(NULL);
#else
			struct jent_notime_thread bad = NT; if (o->a[0] == 1) bad.jent_notime_stop = NULL;
			r = jent_entropy_switch_notime_impl(o->a[0] == 2 ? NULL : o->a[0] == 1 ? &bad : &NT);
#endif
			x = NOINT ? -1 : MP.blocked ? -EAGAIN : o->a[0] ? -EINVAL : 0;
			if (r != x) viol("cfg-window", "op %d: replacing the timer thread handler returned %d, expected %d", o->id, r, x);
		} else if (!strcmp(o->name, "kat")) {
			if (w_kat_set((int)o->a[0]) && o->a[0]) stat_add("fault.constant_bitflip", 1);
		} else if (!strcmp(o->name, "fips")) P.fips = o->a[0];
		else if (!strcmp(o->name, "null")) einval_ops(o);
		int sl = (int)(o->a[0] & (NSLOT - 1));
		abs_state(sl, S[sl].m ? (long)m_code_of(S[sl].m->fail) * !!S[sl].m->fail : 0);
		w_op_end();
	}
	for (int s = 0; s < NSLOT; s++) if (S[s].ec) { jent_entropy_collector_free(S[s].ec); m_free(S[s].m); S[s].ec = NULL; S[s].m = NULL; }
	w_check_quiesced("at the end of the run");
	stat_add("simtime_ns", clk_span);
	stat_add("measurements", (uint64_t)clk_meas_total);
}
