#include "model.h"
#include <stdlib.h>

mproc MP;
mec *m_cur;
int m_abort;

/* ---- cutoff tables (published, indexed by oversampling rate) ---- */
static const unsigned LG[20]={66443,93504,104761,110875,114707,117330,119237,120686,121823,122739,123493,124124,124660,125120,125520,125871,126181,126457,126704,126926};
static const unsigned LGP[20]={66876,93896,105108,111188,114993,117596,119486,120920,122045,122951,123696,124318,124847,125301,125695,126041,126346,126617,126860,127079};
static const unsigned LL[20]={38,75,111,146,181,215,250,284,318,351,385,419,452,485,518,551,584,617,650,683};
static const unsigned LLP[20]={60,119,177,234,291,347,404,460,516,571,627,683,738,793,848,903,958,1013,1068,1123};
static const unsigned AP[20]={325,422,459,477,488,494,499,502,505,507,508,509,510,511,512,512,512,512,512,512};
static const unsigned APP[20]={355,447,479,494,502,507,510,512,512,512,512,512,512,512,512,512,512,512,512,512};
static const unsigned APN[20]={17,71,136,191,236,272,301,325,345,361,375,388,398,407,415,422,429,434,439,444};
static const unsigned APPN[20]={26,92,162,221,267,303,332,355,375,390,404,415,425,433,440,447,453,458,462,466};
static const unsigned MMN[20]={4,46,134,255,399,560,733,856,963,1070,1177,1284,1391,1498,1605,1712,1819,1926,2033,2140};
static const unsigned MMPN[20]={5,50,142,265,410,572,746,857,964,1071,1178,1285,1392,1499,1606,1713,1820,1927,2034,2141};

static void set_cutoffs(mec *e)
{
	unsigned i = e->osr - 1;

	e->rct = 0;
	e->lg = LG[i]; e->lgp = LGP[i]; e->ll = LL[i]; e->llp = LLP[i];
	e->rct_cut = 30 * e->osr; e->rct_pcut = 60 * e->osr;
	if (e->ntg1) {
		e->apt_cut = APN[i]; e->apt_pcut = APPN[i];
		e->rct_cut = (e->rct_cut + 7) / 8; e->rct_pcut = (e->rct_pcut + 7) / 8;
		e->memcut = MMN[i]; e->mempcut = MMPN[i];
	} else {
		e->apt_cut = AP[i]; e->apt_pcut = APP[i];
		e->memcut = 107 * e->osr; e->mempcut = 107 * e->osr + 1;
	}
}

/* ---- health ---- */
uint64_t m_hist_val(const mec *e, unsigned back) { return e->lag_hist[(e->lag_obs - back - 1) & 7]; }

static void run_block(mec *e);

static void lag_feed(mec *e, uint64_t d)
{
	if (e->lag_obs < 8) { e->lag_hist[e->lag_obs++] = d; return; }
	if (m_hist_val(e, e->lag_best) == d) {
		e->lag_hits++; e->lag_run++;
		if (e->lag_run >= e->llp || e->lag_hits >= e->lgp) e->fail |= H_LAG << H_PERM;
		else if (e->lag_run >= e->ll || e->lag_hits >= e->lg) e->fail |= H_LAG;
	} else
		e->lag_run = 0;
	for (unsigned i = 0; i < 8; i++)
		if (m_hist_val(e, i) == d && ++e->lag_score[i] > e->lag_score[e->lag_best])
			e->lag_best = i;
	e->lag_hist[e->lag_obs & 7] = d;
	if (++e->lag_obs >= 1u << 17) {
		e->lag_hits = e->lag_run = e->lag_best = e->lag_obs = 0;
		memset(e->lag_score, 0, sizeof e->lag_score);
		memset(e->lag_hist, 0, sizeof e->lag_hist);
	}
}

static void apt_feed(mec *e, uint64_t d)
{
	if (!e->apt_open) { e->apt_base = d; e->apt_open = 1; e->apt_n = 1; e->apt_obs = 1; return; }
	if (d == e->apt_base) {
		e->apt_n++;
		if (e->apt_n >= e->apt_pcut) e->fail |= H_APT << H_PERM;
		else if (e->apt_n == e->apt_cut) e->fail |= H_APT;
	}
	if (++e->apt_obs >= 512) e->apt_open = 0;
}

static void mem_feed(mec *e, int stuck)
{
	if (!e->memctr) e->memcnt = 0;
	int in = e->memctr < e->memwin;
	if (stuck && in && e->memctr % 3 == 0) e->memcnt++;
	if (e->memcnt >= e->mempcut) {
		if (in) e->fail |= H_MEM << H_PERM;
	} else if (e->memcnt == e->memcut) {
		if (!e->recovering) {
			int st = e->startup;
			e->memcnt = 0; e->recovering = 1; e->startup = 0;
			for (int i = 0; i < 10; i++) run_block(e);
			e->startup = st; e->recovering = 0;
		} else if (in)
			e->fail |= H_MEM;
	}
	if (e->memctr < e->memwin) e->memctr++;
}

static int health_feed(mec *e, uint64_t d)
{
	uint64_t d2 = d - m_hist_val(e, 0);
	uint64_t d3 = d2 - (m_hist_val(e, 0) - m_hist_val(e, 1));
	int stuck = !d || !d2 || !d3;

	apt_feed(e, d);
	lag_feed(e, d);
	if (stuck) {
		e->rct++;
		if (e->rct >= e->rct_pcut) e->fail |= H_RCT << H_PERM;
		else if (e->rct == e->rct_cut) e->fail |= H_RCT;
	} else
		e->rct = 0;
	mem_feed(e, stuck);
	e->samples++;
	return stuck;
}

static unsigned health_verdict(mec *e)
{
	if (!e->fips) return 0;
	if (e->fail && MP.cb) env_cb(e, e->fail);
	return e->fail;
}

/* ---- samples ---- */
static void put32(unsigned char **p, uint32_t v) { memcpy(*p, &v, 4); *p += 4; }

static void work_digest(mec *e, unsigned loops, unsigned char dig[32])
{
	for (uint64_t j = 0; j < loops; j++) {
		unsigned char b[80], *p = b; uint16_t mc = (uint16_t)e->memcnt; sponge_t s;
		memcpy(p, dig, 32); p += 32;
		put32(&p, e->rct); put32(&p, e->apt_cut); put32(&p, e->apt_obs); put32(&p, e->apt_n);
		memcpy(p, &e->apt_base, 8); p += 8; memcpy(p, &mc, 2); p += 2; memcpy(p, &j, 8); p += 8;
		ref_sponge_init(&s, 0x06); ref_absorb(&s, b, (size_t)(p - b)); ref_squeeze_once(&s, dig, 32);
	}
}

static int sample(mec *e, enum tkind k)
{
	unsigned char im[136]; uint64_t t[2], d; int stuck;

	memset(im, 0, sizeof im);
	m_cur = e;
	switch (k) {
	case TK_STARTMEM:
		env_time(k, 0, 2, t);
		d = (t[1] - t[0]) / e->gcd;
		stuck = health_feed(e, d);
		im[8] = 1;
		break;
	case TK_SHA3:
		env_time(k, 0, 2, t);
		e->prev = t[0];
		work_digest(e, e->hashloops * 3, im + 9);
		d = (t[1] - t[0]) / e->gcd;
		stuck = health_feed(e, d);
		im[8] = 2;
		break;
	default:
		env_time(k, e->mem ? 16 : 0, 1, t);
		d = (t[0] - e->prev) / e->gcd;
		e->prev = t[0];
		stuck = health_feed(e, d);
		work_digest(e, e->hashloops, im + 9);
		im[8] = 3;
	}
	memcpy(im, &d, 8);
	ref_absorb(&e->sp, im, 136);
	return stuck;
}

unsigned m_window(const mec *e) { unsigned n = (256 + (e->fips ? 65 : 0)) * e->osr; return (n + 2) / 3 * 3; }

static void collect(mec *e, enum tkind k)
{
	unsigned good = 0;

	e->memctr = 0;
	e->memwin = (unsigned short)m_window(e);
	while (!health_verdict(e)) {
		if (sample(e, k)) continue;
		if (++good >= e->memwin) break;
	}
}

static void run_block(mec *e)
{
	if (e->startup) {
		if (e->startup == 2) { collect(e, TK_STARTMEM); e->startup = 1; set_cutoffs(e); }
		collect(e, TK_SHA3);
		e->startup = 0;
		set_cutoffs(e);
		return;
	}
	sample(e, TK_NORMAL);
	collect(e, TK_NORMAL);
}

static void emit(mec *e, unsigned char *out, size_t n)
{
	unsigned char v[64], t[96], enc = e->seeded ? 85 : 0;

	e->seeded = 1;
	ref_absorb(&e->sp, &enc, 1);
	ref_squeeze_once(&e->sp, v, 64);
	ref_sponge_init(&e->sp, 0x1f);
	ref_absorb(&e->sp, v, 64); enc = 170; ref_absorb(&e->sp, &enc, 1);
	ref_squeeze_once(&e->sp, t, 96);
	ref_sponge_init(&e->sp, 0x1f);
	ref_absorb(&e->sp, t, 64);
	memcpy(out, t + 64, n);
}

/* ---- configuration ---- */
unsigned m_memsize_field(unsigned flags) { return flags >> 27; }
static unsigned with_mem(unsigned flags, unsigned f) { if (f > 20) f = 20; return (flags & 0x07ffffffu) | (f << 27); }
static unsigned with_loops(unsigned flags, unsigned f) { if (f > 7) f = 7; return (flags & ~(7u << 24)) | (f << 24); }
uint32_t m_memsize(unsigned flags)
{
	unsigned f = m_memsize_field(flags);
	if (f > 20) f = 20;
	return f ? 1u << (f + 9) : 1u << 18;
}
unsigned m_hashloop(unsigned flags) { return 1u << ((flags >> 24) & 7); }

static unsigned norm_mem(unsigned flags, unsigned inc)
{
	unsigned f = m_memsize_field(flags);

	if (f) return with_mem(flags, f + inc);
	unsigned bits = env_cache_bits(!!(flags & F_CACHE_ALL));
	if (!bits) bits = 18;
	else if (!(flags & F_CACHE_ALL)) bits += 2;
	return with_mem(flags, bits > 9 ? bits - 9 : 0);
}

/* ---- start-up tests and allocation ---- */
static int time_tests(unsigned osr, unsigned flags);

static int int_timer_usable(void) { return env_ncpu() >= 2; }

static mec *make(unsigned osr, unsigned flags, int check)
{
	mec *e;

	if ((flags & F_DIS_INT) && (flags & F_FORCE_INT)) return NULL;
	if (osr < M_MIN_OSR) osr = M_MIN_OSR;
	if (osr > M_MAX_OSR) return NULL;
	if (check && !MP.tests_ok && m_init_ex(osr, flags)) return NULL;
	if (flags & F_NTG1) flags |= F_DIS_INT;
	if (MP.forced && (flags & F_DIS_INT)) return NULL;

	if (env_alloc(flags)) return NULL;
	e = calloc(1, sizeof *e);
	e->uuid_id = -1;
	e->capped = m_memsize_field(flags) != 0;
	if (!(flags & F_NOMEM)) {
		flags = norm_mem(flags, 0);
		if (env_alloc(flags)) goto bad;
		e->mem = 1;
	}
	flags = with_loops(flags, (flags >> 24) & 7);
	e->hashloops = m_hashloop(flags);
	if (env_alloc(flags)) goto bad;
	ref_sponge_init(&e->sp, 0x1f);
	e->ntg1 = !!(flags & F_NTG1);
	e->fips = (flags & F_FIPS) || e->ntg1 || env_sysfips();
	e->startup = e->fips ? 2 : 0;
	e->osr = osr; e->flags = flags;
	set_cutoffs(e);
	e->gcd = MP.gcd_set ? MP.gcd : 1;
	if (!(flags & F_DIS_INT) && (MP.forced || (flags & F_FORCE_INT))) {
#ifdef V_NOINT
		goto bad;	/* this build has none */
#endif
		/* internal timer: only reached in lockstep runs on hosts that cannot provide it */
		if (!MP.forced && time_tests(e->osr, flags | F_FORCE_INT)) goto bad;
		if (!int_timer_usable()) goto bad;
		goto bad;
	}
	return e;
bad:
	free(e);
	return NULL;
}

static int time_tests(unsigned osr, unsigned flags)
{
	static uint64_t hist[1024];
	mec *e; int ret = 0, back = 0, nstuck = 0;

	if (env_alloc(flags)) return I_EMEM;
	if (flags & F_FORCE_INT) MP.forced = 1; else flags |= F_DIS_INT;
	if (MP.forced && (flags & F_DIS_INT)) return I_ENOTIME;
	e = make(osr, flags | F_FIPS, 0);
	if (!e) return I_EMEM;

	sample(e, TK_NORMAL);
	for (int i = -100; i < 1024; i++) {
		uint64_t t0 = e->prev, d, t1; int st;
		uint64_t g = e->gcd;
		st = sample(e, TK_NORMAL);
		t1 = e->prev;
		d = (t1 - t0) / g;
		if (!t0 || !t1) { ret = I_ENOTIME; goto out; }
		if (!d) { ret = I_ECOARSE; goto out; }
		if (i < 0) continue;
		nstuck += st;
		back += t1 <= t0;
		hist[i] = d;
	}
	if (back > 3) { ret = I_ENOMONO; goto out; }
	unsigned f = health_verdict(e);
	if (f) { ret = (f & (H_RCT | H_RCT << H_PERM)) ? I_ERCT : I_EHEALTH; goto out; }
	uint64_t g = hist[0], sum = 0;
	for (int i = 1; i < 1024; i++) {
		sum += hist[i] > hist[i-1] ? hist[i] - hist[i-1] : hist[i-1] - hist[i];
		uint64_t a = hist[i], b = g;
		while (b) { uint64_t r = a % b; a = b; b = r; }
		g = a;
	}
	if (sum * e->osr < 1024) { ret = I_EMINVARVAR; goto out; }
	if (g >= 0xffffffffu / 2) { ret = I_ECOARSE; goto out; }
	if (!MP.gcd_set) { MP.gcd_set = 1; MP.gcd = g; }
	if (nstuck > 1024 * 9 / 10) ret = I_ESTUCK;
out:
	free(e);
	return ret;
}

static int pre(unsigned flags)
{
	MP.blocked = 1;
	if (env_kat_broken()) return I_EHASH;
	if (env_alloc(flags)) return I_EMEM;
	return 0;
}
/* the latest verdict decides whether instances may be had */
static int post(int ret) { MP.tests_ok = !ret; return ret; }

int m_init(void)
{
	int r = pre(0);
	if (r) return post(r);
	r = time_tests(0, F_DIS_INT);
#ifndef V_NOINT
	if (r) r = time_tests(0, F_FORCE_INT);
#endif
	return post(r);
}

int m_init_ex(unsigned osr, unsigned flags)
{
	int r;

	if (flags & (F_NTG1 | F_FIPS)) flags |= F_SECMEM;
	r = pre(flags);
	if (r) return post(r);
	if ((flags & F_NTG1) && (flags & F_FORCE_INT)) return post(I_ENOTIME);
	r = I_ENOTIME;
	if (!(flags & F_FORCE_INT)) r = time_tests(osr, flags | F_DIS_INT);
#ifndef V_NOINT
	if (r && !(flags & (F_DIS_INT | F_NTG1))) r = time_tests(osr, flags | F_FORCE_INT);
#endif
	return post(r);
}

static int recover(mec **pe, mec *(*alloc)(unsigned, unsigned))
{
	mec *o = *pe, *n; unsigned osr = o->osr + 1, fl = o->flags;

	if (osr > M_MAX_OSR) return -1;
	if (!o->capped) fl = norm_mem(fl, 1);
	fl = with_loops(fl, ((fl >> 24) & 7) + 1);
	while (m_init_ex(osr, fl))
		if (++osr > M_MAX_OSR) return -1;
	n = alloc(osr, fl);
	if (!n) return -1;
	n->capped = o->capped;
	if (o->apt_obs) { n->apt_base = o->apt_base; n->apt_open = 1; n->apt_n = n->apt_cut; n->apt_obs = o->apt_obs; }
	n->rct = n->rct_cut;
	n->lag_run = o->lag_run; n->lag_hits = o->lag_hits; n->lag_best = o->lag_best; n->lag_obs = o->lag_obs;
	memcpy(n->lag_score, o->lag_score, sizeof n->lag_score);
	memcpy(n->lag_hist, o->lag_hist, sizeof n->lag_hist);
	n->memcnt = (unsigned short)o->memcut;
	memcpy(n->uuid, o->uuid, sizeof n->uuid); n->uuid_id = o->uuid_id;
	n->reinit = o->reinit + 1;
	n->invocations = o->invocations; n->bytes = o->bytes;
	n->selftest_failed = o->selftest_failed;
	free(o);
	*pe = n;
	return 0;
}

static mec *make_checked(unsigned osr, unsigned flags) { return make(osr, flags, 1); }

mec *m_alloc(unsigned osr, unsigned flags)
{
	mec *e;

	if ((flags & F_NOMEM) && ((flags & (F_NTG1 | F_FIPS)) || env_sysfips())) return NULL;
	if (flags & (F_NTG1 | F_FIPS)) flags |= F_SECMEM;
	e = make(osr, flags, 1);
	if (!e) return NULL;
	do {
		run_block(e);
		if (health_verdict(e)) {
			if (recover(&e, make_checked)) { free(e); return NULL; }
			continue;	/* checks the loop condition, as the new instance starts over */
		}
	} while (e->startup);
	env_uuid(e);
	return e;
}

int m_code_of(unsigned m)
{
	if (m & H_RCT << H_PERM) return E_RCTP;
	if (m & H_APT << H_PERM) return E_APTP;
	if (m & H_LAG << H_PERM) return E_LAGP;
	if (m & H_MEM << H_PERM) return E_MEMP;
	if (m & H_RCT) return E_RCT;
	if (m & H_APT) return E_APT;
	if (m & H_MEM) return E_MEM;
	return E_LAG;
}

ssize_t m_read(mec *e, unsigned char *out, size_t len)
{
	size_t left = len;

	if (!e || (!out && len)) return E_INVAL;
	while (left) {
		size_t n = left < 32 ? left : 32;
		unsigned f;
		if (e->selftest_failed) return E_SELF;
		run_block(e);
		f = health_verdict(e);
		if (f) return m_code_of(f);
		emit(e, out, n);
		out += n; left -= n;
	}
	e->invocations++; e->bytes += len;
	return (ssize_t)len;
}

ssize_t m_safe(mec **pe, unsigned char *out, size_t len)
{
	if (!pe || (!out && len)) return E_INVAL;
	if (!len) return 0;
	for (;;) {
		ssize_t r = m_read(*pe, out, len);
		if (r >= 0) return r;
		if (r != E_RCT && r != E_APT && r != E_LAG && r != E_MEM) return r;
		if (recover(pe, m_alloc)) return r;
	}
}

void m_free(mec *e) { free(e); }
int m_selftest(mec *e)
{
	if (!env_kat_broken()) return 0;
	if (e) e->selftest_failed = 1;
	return I_EHASH;
}
