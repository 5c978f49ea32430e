/*
 * Between the kernel module and the generator core.  Every call the module
 * makes into the core passes here: the call is checked against who may use
 * which generator when, and is answered either by the real core on a
 * simulated clock (cfg real=1) or by a stand-in whose output is recognisable.
 */
#include "ksim.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-noise.h"
#include "jitterentropy.h"

kgen_t kg[MAXG]; int nkg; int ks_real, ks_inited;
long ks_self_started, ks_self_done, ks_self_fail_started, ks_self_fail_done;
static u64 ctr; static rng_t jrng;
static struct rand_data *last_measured; static int measuring, last_mop = -1;

#define R(x) __real_##x
int R(jent_entropy_init_ex)(unsigned, unsigned); struct rand_data *R(jent_entropy_collector_alloc)(unsigned, unsigned); struct rand_data *R(jent_entropy_collector_alloc_raw)(unsigned, unsigned);
void R(jent_entropy_collector_free)(struct rand_data *); ssize_t R(jent_read_entropy)(struct rand_data *, char *, size_t); ssize_t R(jent_read_entropy_safe)(struct rand_data **, char *, size_t);
int R(jent_selftest)(struct rand_data *); int R(jent_status)(const struct rand_data *, char *, size_t); int R(jent_uuid)(const struct rand_data *, char *, size_t);
unsigned R(jent_measure_jitter)(struct rand_data *, uint64_t, uint64_t *); unsigned R(jent_measure_jitter_ntg1_sha3)(struct rand_data *, uint64_t, uint64_t *); unsigned R(jent_measure_jitter_ntg1_memaccess)(struct rand_data *, uint64_t, uint64_t *);

/* ---- the simulated clock of the real core ---- */
static u64 now_ts = 5000000;
static void mock(void *a, uint64_t *out)
{
	(void)a; oprec *o = kc->op; u64 d = 3000 + rng_n(&jrng, 4096);
	if (o) {
		long n = o->tcalls++;
		for (int i = 0; i < P.nseg; i++) if (P.seg[i].op == o->id && n >= P.seg[i].skip && n < P.seg[i].skip + P.seg[i].n) { if (!P.seg[i].used++) stat_add("fault.clock_burst", 1); d = P.seg[i].kind == 1 ? 0 : 1000; }
	}
	now_ts += d; *out = now_ts;
	ks_acc++;
	if (ks_sched_on && rng_n(&jrng, 997) == 0) k_mix();
}
void kj_init(void)
{
	ks_real = cfgl("real", 0) != 0; jrng.s = P.clkseed + 99;
	if (ks_real) jent_set_mock_timer(mock, NULL);
}

/* ---- who uses what ---- */
static kgen_t *find(const struct rand_data *ec)
{
	for (int i = nkg - 1; i >= 0; i--) if (kg[i].ec == ec && kg[i].live) return &kg[i];
	for (int i = nkg - 1; i >= 0; i--) if (kg[i].ec == ec) viol("use-after-free", "%s uses a generator that was released", kc->op ? kc->op->name : "a thread");
	viol("use-after-free", "%s uses something that is not a generator", kc->op ? kc->op->name : "a thread");
	return NULL;
}
kgen_t *kg_of_owner(int owner) { for (int i = nkg - 1; i >= 0; i--) if (kg[i].live && kg[i].owner == owner) return &kg[i]; return NULL; }
static void own(kgen_t *g, const char *what)
{
	oprec *o = kc->op;
	if (!o) viol("wrong-instance", "%s outside any call", what);
	if (o->owner != -2 && o->owner != g->owner) viol("wrong-instance", "%s: %s on the generator of another user", o->name, what);
}
static void wr_in(kgen_t *g, const char *what)
{
	own(g, what);
	if (g->writer || g->readers) viol("concurrent-use", "%s: %s while another caller is inside the same generator", kc->op->name, what);
	g->writer = 1; g->wthr = kc->id; ks_inside++; kc->core++;
}
static void wr_out(kgen_t *g) { g->writer = 0; ks_inside--; kc->core--; }
static void rd_in(kgen_t *g, const char *what)
{
	own(g, what);
	if (g->writer) viol("concurrent-use", "%s: %s while another caller changes the same generator", kc->op->name, what);
	g->readers++; ks_inside++; kc->core++;
}
static void rd_out(kgen_t *g) { g->readers--; ks_inside--; kc->core--; }
/* the module itself looks into a generator */
long ks_inside;
void kj_touch(void *a, int w)
{
	if (kc->core) return;
	for (int i = 0; i < nkg; i++) if (kg[i].live && (unsigned char *)a >= (unsigned char *)kg[i].ec && (unsigned char *)a < (unsigned char *)(kg[i].ec + 1) && ((kg[i].writer && kg[i].wthr != kc->id) || (w && kg[i].readers)))
		viol("concurrent-use", "%s touches a generator while another caller is inside it", kc->op ? kc->op->name : "a thread");
}
static void note(kgen_t *g)
{
	if (g->nh == NHIST) { memmove(&g->h[0], &g->h[NHIST / 2], NHIST / 2 * sizeof g->h[0]); g->nh = NHIST / 2; g->cut = 1; }
	g->h[g->nh++] = (kstate){ ks_acc, g->ec->read_invocations, g->ec->bytes_output, g->ec->reinit_count, g->ec->health_failure };
}
/* did the generator have a state like this at some time during the call? */
int kg_state_ok(kgen_t *g, oprec *o, int (*m)(const kstate *, const void *), const void *v)
{
	for (int i = 0; i < g->nh; i++) {
		long a = g->h[i].t, b = i + 1 < g->nh ? g->h[i + 1].t : 1L << 60;
		if (a <= o->t1 && b >= o->t0 && m(&g->h[i], v)) return 1;
	}
	return g->cut && g->h[0].t > o->t0;
}
static void adjust_core(int d) { kc->core += d; }

/* ---- start-up ---- */
unsigned ks_eff_flags(void)
{
	unsigned f = (unsigned)cfgl("p_flags", 0);
	if (cfgl("p_ntg1", 0)) f |= JENT_NTG1;
	if (cfgl("p_force_fips", 0)) f |= JENT_FORCE_FIPS;
	if (cfgl("p_cache_all", 0)) f |= JENT_CACHE_ALL;
	return f;
}
int __wrap_jent_entropy_init_ex(unsigned osr, unsigned flags)
{
	long v; int rc;
	if (kc->core) return R(jent_entropy_init_ex)(osr, flags);
	k_mix();
	if (!kc->op) viol("ungated", "start-up test outside any call");
	if (osr != (unsigned)cfgl("p_osr", 0) || flags != ks_eff_flags()) viol("params", "the start-up test runs with osr %u flags 0x%x, not the configured osr %ld flags 0x%x", osr, flags, cfgl("p_osr", 0), ks_eff_flags());
	kc->op->init_n++;
	if (k_fault("init", &v)) rc = v ? (int)v : 1;
	else if (ks_real) { adjust_core(1); rc = R(jent_entropy_init_ex)(osr, flags); adjust_core(-1); }
	else rc = 0;
	kc->op->init_rc = rc;
	if (rc) kc->op->must_panic = 1; else ks_inited = 1;
	tr("  start-up test %d", rc);
	k_mix();
	return rc;
}

/* ---- instances ---- */
static void new_uuid(kgen_t *g)
{
	u64 a = rng_next(&jrng), b = rng_next(&jrng);
	snprintf(g->uuid, sizeof g->uuid, "%08x-%04x-4%03x-%04x-%012llx", (unsigned)a, (unsigned)(a >> 32) & 0xffff, (unsigned)(a >> 48) & 0xfff, 0x8000 | ((unsigned)b & 0x3fff), (unsigned long long)(b >> 16));
}
static struct rand_data *do_alloc(unsigned osr, unsigned flags, int raw)
{
	long v; struct rand_data *ec = NULL; oprec *o = kc->op;
	k_mix();
	if (!o) viol("ungated", "an instance is created outside any call");
	if (!ks_inited) viol("ungated", "an instance is created although the start-up test has not passed");
	if (!raw && (osr != (unsigned)cfgl("p_osr", 0) || flags != ks_eff_flags())) viol("params", "an instance is created with osr %u flags 0x%x, not the configured osr %ld flags 0x%x", osr, flags, cfgl("p_osr", 0), ks_eff_flags());
	if (raw && !kj_params_ok(osr, flags)) viol("params", "a raw instance is created with osr %u flags 0x%x, which were never the configured values during the call", osr, flags);
	kc->core++;
	if (k_fault("galloc", &v)) ec = NULL;
	else if (ks_real) ec = raw ? R(jent_entropy_collector_alloc_raw)(osr, flags) : R(jent_entropy_collector_alloc)(osr, flags);
	else {
		ec = ks_alloc(sizeof *ec, GFP_KERNEL, 1);
		if (ec) { ec->osr = osr < JENT_MIN_OSR ? JENT_MIN_OSR : osr; ec->flags = flags; }
		if (ec && !raw && cfgl("age", 0)) { ec->read_invocations = 0xfffffffdULL; ec->bytes_output = 0x100000000ULL - (u64)cfgl("age", 0); }	/* in use for a long time */
	}
	kc->core--;
	k_mix();
	if (!ec) { o->galloc_fail++; return NULL; }
	if (nkg == MAXG) viol("crash", "too many instances");
	kgen_t *g = &kg[nkg++]; memset(g, 0, sizeof *g);
	g->ec = ec; g->live = 1; g->owner = o->owner; g->raw = raw; g->born = g->last_test = ks_now; g->osr = osr; g->flags = flags; g->salt = rng_next(&jrng);
	if (!raw) { if (ks_real) R(jent_uuid)(ec, g->uuid, sizeof g->uuid); else new_uuid(g); }
	note(g);
	stat_add("ev.instances", 1);
	return ec;
}
struct rand_data *__wrap_jent_entropy_collector_alloc(unsigned osr, unsigned flags) { return kc->core ? R(jent_entropy_collector_alloc)(osr, flags) : do_alloc(osr, flags, 0); }
struct rand_data *__wrap_jent_entropy_collector_alloc_raw(unsigned osr, unsigned flags) { return kc->core ? R(jent_entropy_collector_alloc_raw)(osr, flags) : do_alloc(osr, flags, 1); }
void __wrap_jent_entropy_collector_free(struct rand_data *ec)
{
	if (kc->core) { R(jent_entropy_collector_free)(ec); return; }
	if (!ec) return;
	k_mix();
	for (int i = nkg - 1; i >= 0; i--) if (kg[i].ec == ec && !kg[i].live) { int again = 0; for (int j = 0; j < nkg; j++) again |= kg[j].live && kg[j].ec == ec; if (!again) viol("double-free", "a generator is released twice"); }
	kgen_t *g = find(ec);
	if (kc->op && kc->op->owner >= 0 && g->owner != kc->op->owner) viol("wrong-instance", "%s releases the generator of another user", kc->op->name);
	if (g->writer || g->readers) viol("concurrent-use", "a generator is released while a caller is inside it");
	g->live = 0; kc->core++;
	if (ks_real) R(jent_entropy_collector_free)(ec);
	else { memset(ec, 0, sizeof *ec); ks_free(ec, 0); }
	kc->core--;
	k_mix();
}

/* ---- output ---- */
static int sticky(long rc) { return rc == JENT_ERR_RCT_PERMANENT || rc == JENT_ERR_APT_PERMANENT || rc == JENT_ERR_LAG_PERMANENT || rc == JENT_ERR_RCT_MEM_PERMANENT || rc == JENT_ERR_SELFTEST; }
static void fill(char *d, size_t n, u64 mark)
{
	for (size_t i = 0; i < n; i += 8) { u64 w = 0x9d7e57ULL << 40 | mark << 39 | (ctr++ & 0x7fffffffffULL); memcpy(d + i, &w, n - i < 8 ? n - i : 8); if ((i & 63) == 0) k_point(); }
}
static void out_add(oprec *o, const void *d, size_t n)
{
	if (o->outn + n > o->outcap) { o->outcap = (o->outn + n) * 2 + 256; o->out = realloc(o->out, o->outcap); }
	memcpy(o->out + o->outn, d, n); o->outn += n;
	if (o->nchunk < 4096) o->chunk[o->nchunk++] = o->outn;
}
static ssize_t fake_read(kgen_t *g, struct rand_data **ecp, char *d, size_t n, int safe)
{
	long v;
	if (g->self_failed) { fill(d, n < 16 ? n : 16, 1); return JENT_ERR_SELFTEST; }
	if (g->failed_rc) { fill(d, n < 16 ? n : 16, 1); return g->failed_rc; }
	if (safe && k_fault("genrec", &v)) {
		/* intermittent failure, recovered on a new collector; the recovered read may fail again */
		struct rand_data *ne = ks_alloc(sizeof *ne, GFP_KERNEL, 1);
		k_mix();
		if (!ne) { fill(d, n / 2, 1); return JENT_ERR_RCT; }
		*ne = *g->ec; ne->reinit_count++; ne->health_failure = 0; k_mix();
		struct rand_data *old = *ecp; *ecp = ne; g->ec = ne;
		memset(old, 0, sizeof *old); ks_free(old, 0);
		stat_add("ev.recovered", 1);
		k_mix();
	}
	if (k_fault("gen", &v)) {
		fill(d, n - n / 3, 1);	/* part of the buffer was already written when it failed */
		if (!v) v = 2;
		g->ec->health_failure |= 1u << (v % 8);
		if (sticky(-v)) g->failed_rc = (int)-v;
		note(g);
		return -v;
	}
	fill(d, n, 0);
	g->ec->read_invocations++; k_mix(); g->ec->bytes_output += n;
	note(g);
	return (ssize_t)n;
}
static ssize_t do_read(struct rand_data **ecp, char *d, size_t n, int safe)
{
	oprec *o = kc->op; ssize_t rc;
	k_mix();
	if (!o) viol("wrong-instance", "output is requested outside any call");
	kgen_t *g = find(*ecp);
	if (g->raw) viol("wrong-instance", "conditioned output is taken from a raw instance");
	wr_in(g, "read");
	o->gens++; if (kc->sig) o->gens_after_sig++;
	if (o->gen_fail_rc) o->gens_after_fail++;
	if (kc->held) { o->hold_bytes += (long)n; if (o->hold_bytes > o->hold_max) o->hold_max = o->hold_bytes; }
	k_mix();
	if (ks_real) {
		long v;
		if (k_fault("gen", &v)) { memset(d, 0xb7, n); rc = v ? -v : JENT_ERR_RCT; if (sticky(rc)) g->failed_rc = (int)rc; }
		else if (g->failed_rc) { memset(d, 0xb7, n); rc = g->failed_rc; }
		else rc = safe ? R(jent_read_entropy_safe)(ecp, d, n) : R(jent_read_entropy)(*ecp, d, n);
		if (*ecp != g->ec) { stat_add("ev.recovered", 1); g->ec = *ecp; }
		if (rc >= 0 && g->self_failed) viol("self-verdict", "%s: an instance whose self test failed delivers data", o->name);
		note(g);
	} else rc = fake_read(g, ecp, d, n, safe);
	if (rc < 0) {
		o->gen_fail_rc = rc; stat_add("ev.read_failed", 1);
		if (sticky(rc)) { o->must_panic = 1; stat_add("ev.permanent_failure", 1); }
	} else out_add(o, d, (size_t)rc);
	k_mix();
	wr_out(g);
	k_mix();
	return rc;
}
ssize_t __wrap_jent_read_entropy_safe(struct rand_data **ec, char *d, size_t n) { return kc->core ? R(jent_read_entropy_safe)(ec, d, n) : do_read(ec, d, n, 1); }
ssize_t __wrap_jent_read_entropy(struct rand_data *ec, char *d, size_t n) { return kc->core ? R(jent_read_entropy)(ec, d, n) : do_read(&ec, d, n, 0); }

/* ---- self test ---- */
/* the conditioning component miscomputes: one bit of its round constants is flipped */
#include <link.h>
#include <sys/mman.h>
static u64 *kat_tab[8]; static int kat_n = -1;
static int kat_cb(struct dl_phdr_info *i, size_t z, void *a)
{
	static const u64 rc[24] = { 0x1, 0x8082, 0x800000000000808aULL, 0x8000000080008000ULL, 0x808b, 0x80000001, 0x8000000080008081ULL, 0x8000000000008009ULL };
	(void)z; (void)a;
	for (int p = 0; p < i->dlpi_phnum; p++) {
		const ElfW(Phdr) *h = &i->dlpi_phdr[p];
		if (h->p_type != PT_LOAD || !(h->p_flags & PF_R)) continue;
		unsigned char *b = (unsigned char *)(i->dlpi_addr + h->p_vaddr);
		for (size_t o = 0; o + 192 <= h->p_memsz; o += 8) if (!memcmp(b + o, rc, 64) && (u64 *)(b + o) != rc && kat_n < 8) kat_tab[kat_n++] = (u64 *)(b + o);
	}
	return 1;
}
static int kat_flip(void)
{
	if (kat_n < 0) { kat_n = 0; dl_iterate_phdr(kat_cb, NULL); }
	for (int i = 0; i < kat_n; i++) { mprotect((void *)((uintptr_t)kat_tab[i] & ~4095UL), 8192, PROT_READ | PROT_WRITE | PROT_EXEC); kat_tab[i][7] ^= 1ULL << 17; }
	return kat_n > 0;
}
int __wrap_jent_selftest(struct rand_data *ec)
{
	long v; int rc; oprec *o = kc->op;
	if (kc->core) return R(jent_selftest)(ec);
	k_mix();
	if (!o) viol("wrong-instance", "a self test runs outside any call");
	kgen_t *g = ec ? find(ec) : NULL;
	if (g) wr_in(g, "self test"); else kc->core++;
	if (g && g->self_failed) viol("self-retest", "%s: the self test of an instance whose self test failed runs again", o->name);
	if (o->owner == -2 && !cfgl("p_selftest_interval", 0)) viol("self-unasked", "a periodic self test runs although none is configured");
	ks_self_started++; o->self_n++; o->self_bound = g != NULL;
	k_mix();
	rc = 0;
	if (ks_kat || k_fault("kat", &v)) {
		rc = 1;
		if (ks_real && kat_flip()) {
			rc = R(jent_selftest)(ec); kat_flip();
			if (!rc) viol("self-verdict", "%s: the self test passes although the conditioning component miscomputes", o->name);
		}
	}
	else if (ks_real) rc = R(jent_selftest)(ec);
	if (rc) { ks_self_fail_started++; o->must_panic = 1; if (g) { g->self_failed = 1; if (ks_real && kat_n <= 0) g->failed_rc = JENT_ERR_SELFTEST; } stat_add("ev.selftest_failed", 1); }
	o->self_rc = rc;
	if (g) { g->last_test = ks_now; g->ntest++; }
	k_mix();
	ks_self_done++; if (rc) ks_self_fail_done++;
	if (g) wr_out(g); else kc->core--;
	stat_add(g ? "ev.selftest_bound" : "ev.selftest_unbound", 1);
	k_mix();
	return rc;
}

/* ---- reports ---- */
int __wrap_jent_status(const struct rand_data *ec, char *buf, size_t n)
{
	long v; int rc = 0; oprec *o = kc->op;
	if (kc->core) return R(jent_status)(ec, buf, n);
	k_mix();
	if (!ec) { snprintf(buf, n, "{}"); return 0; }
	kgen_t *g = find(ec);
	rd_in(g, "status");
	o->status_n++;
	if (k_fault("stat", &v)) rc = -1;
	else if (ks_real) rc = R(jent_status)(ec, buf, n);
	else {
		u64 inv = ec->read_invocations; k_mix(); u64 by = ec->bytes_output;
		int l = snprintf(buf, n, "{ \"uuid\": \"%s\", \"healthFailure\": %u, \"reinitializations\": %u, \"output\": { \"invocations\": %llu, \"bytes\": %llu },\n", g->uuid, ec->health_failure, ec->reinit_count, (unsigned long long)inv, (unsigned long long)by);
		int pad = (int)(g->salt % 1800);
		for (int i = 0; i < pad && l + 3 < (int)n; i++) buf[l++] = i % 70 == 69 ? '\n' : '.';
		if (l + 2 < (int)n) { buf[l++] = '}'; buf[l] = 0; } else rc = -1;
	}
	o->status_rc = rc;
	if (!rc) snprintf(o->status, sizeof o->status, "%s", buf);
	k_mix();
	rd_out(g);
	k_mix();
	return rc;
}
int __wrap_jent_uuid(const struct rand_data *ec, char *buf, size_t n)
{
	long v; int rc = 0; oprec *o = kc->op;
	if (kc->core) return R(jent_uuid)(ec, buf, n);
	k_mix();
	if (!ec) return JENT_ERR_EINVAL;
	kgen_t *g = find(ec);
	/* a self test does not touch the identifier; a reader may replace the generator */
	own(g, "identifier"); kc->core++;
	if (k_fault("uuidf", &v)) { rc = -1; if (o) o->uuid_fail++; }
	else if (ks_real) rc = R(jent_uuid)(ec, buf, n);
	else if (n < 37) rc = -1;
	else memcpy(buf, g->uuid, strlen(g->uuid) + 1);
	kc->core--;
	k_mix();
	if (!g->live || g->ec != ec) viol("use-after-free", "%s reads the identifier of a generator that is replaced meanwhile", o ? o->name : "a thread");
	return rc;
}

/* ---- raw measurements ---- */
static unsigned do_measure(struct rand_data *ec, u64 loop, u64 *ret, int kind)
{
	oprec *o = kc->op; unsigned rc = 0; u64 d = 0; int stale;
	if (!o) viol("wrong-instance", "a measurement outside any call");
	kgen_t *g = find(ec);
	k_point();
	if (measuring) viol("measure-overlap", "two raw measurements overlap");
	if (o->msamples && last_mop != o->id && !o->gap) viol("measure-overlap", "the measurements of two readers of the raw noise are interleaved");
	wr_in(g, "measurement");
	measuring = 1;
	if (kind != (g->flags & 1 << 15 ? 1 : g->flags & 1 << 16 ? 2 : 0)) viol("measure-kind", "the noise source measured is not the one the instance was created for (flags 0x%x)", g->flags);
	stale = kind == 0 && (o->gap || last_measured != ec);
	o->gap = 0; last_measured = ec; last_mop = o->id; o->msamples++;
	if (ks_real) { rc = kind == 0 ? R(jent_measure_jitter)(ec, loop, &d) : kind == 1 ? R(jent_measure_jitter_ntg1_sha3)(ec, loop, &d) : R(jent_measure_jitter_ntg1_memaccess)(ec, loop, &d); }
	else d = 0x9d7e57ULL << 40 | (ctr++ & 0x7fffffffffULL);
	k_point();
	measuring = 0;
	wr_out(g);
	if (ret) {
		*ret = d;
		if (!stale) {
			out_add(o, &d, 8);
			if (!o->loop_n++) o->loop_seen = (long)loop; else if (o->loop_seen != (long)loop) o->loop_mixed = 1;
		}
	}
	return rc;
}
unsigned __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *r) { return kc->core ? R(jent_measure_jitter)(ec, l, r) : do_measure(ec, l, r, 0); }
unsigned __wrap_jent_measure_jitter_ntg1_sha3(struct rand_data *ec, uint64_t l, uint64_t *r) { return kc->core ? R(jent_measure_jitter_ntg1_sha3)(ec, l, r) : do_measure(ec, l, r, 1); }
unsigned __wrap_jent_measure_jitter_ntg1_memaccess(struct rand_data *ec, uint64_t l, uint64_t *r) { return kc->core ? R(jent_measure_jitter_ntg1_memaccess)(ec, l, r) : do_measure(ec, l, r, 2); }

int k_map(long rc)
{
	switch (rc) {
	case JENT_ERR_RCT_PERMANENT: case JENT_ERR_APT_PERMANENT: case JENT_ERR_LAG_PERMANENT: case JENT_ERR_RCT_MEM_PERMANENT: case JENT_ERR_SELFTEST: return -EFAULT;
	case JENT_ERR_RCT: case JENT_ERR_APT: case JENT_ERR_LAG: case JENT_ERR_RCT_MEM: return -EAGAIN;
	case JENT_ERR_EINVAL: case JENT_ERR_NOTIME: return -EINVAL;
	default: return -EFAULT;
	}
}
unsigned ks_ec_osr(struct rand_data *e) { return e->osr; }
unsigned ks_ec_flags(struct rand_data *e) { return e->flags; }
