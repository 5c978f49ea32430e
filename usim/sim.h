/* Common declarations of the userspace simulator. */
#ifndef V_SIM_H
#define V_SIM_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

/* ---------- prng ---------- */
typedef struct { uint64_t s; } rng_t;
static inline uint64_t rng_next(rng_t *r)
{
	uint64_t z = (r->s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline uint64_t rng_n(rng_t *r, uint64_t n) { return n ? rng_next(r) % n : 0; }
static inline int rng_p(rng_t *r, unsigned pct) { return rng_n(r, 100) < pct; }

/* ---------- plan ---------- */
#define MAXLINES 4096
typedef struct { int id; char name[16]; long a[6]; int na; int thr; } op_t;
typedef struct { int op; long skip, n; int kind; int64_t a, b; uint64_t seed; long used; int done; } seg_t;
typedef struct { char kind[16]; int op; int thr; long ord, cnt, val; long hits; } fault_t;
typedef struct { long step; int thr; } pre_t;
typedef struct {
	char sim[16];
	op_t op[512]; int nop;
	seg_t seg[512]; int nseg;
	fault_t f[512]; int nf;
	pre_t pre[MAXLINES]; int npre; int explicit_sched;
	/* cfg */
	long ncpu, fips, l1, l2, l3, sysfs, gran, base, spread, cbact, mlockmode, budget;
	uint64_t clkseed, t0, schedseed; long schedp, aff_sparse, nthr, pin, rndmode, quantum, sysfsl3, rv, work;
	long pct; /* PCT-like priority change count */
	char prop[8];
	struct { char k[24]; long v; } kv[40]; int nkv;	/* keys only one engine knows */
} plan_t;
long cfgl(const char *k, long def);
extern plan_t P;
int plan_parse(const char *txt);
/* generation */
typedef struct { char *b; size_t n, cap; } sb_t;
void sb(sb_t *s, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void gen_plan(const char *profile, uint64_t seed, sb_t *out);

/* ---------- reporting (child side) ---------- */
extern int rep_fd;
void viol(const char *cat, const char *fmt, ...) __attribute__((format(printf, 2, 3)));	/* reports and ends the run */
void stat_add(const char *key, uint64_t n);
void hist_mix(const void *p, size_t n);		/* history hash */
void hist_u64(uint64_t v);
void sig_u64(uint64_t v);			/* state-coverage signature */
void state_seen(uint64_t v);			/* one reached abstract state */
void run_end(void) __attribute__((noreturn));
extern int trace_on;
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* ---------- simulated OS ---------- */
void w_reset(void);
void w_op_begin(int id);
void w_op_end(void);
int w_fault(const char *kind, long *val);	/* next call of this kind in this op faulted? */
int w_alloc_fault_model(long ord, unsigned flags);	/* would allocation #ord of this op fail? */
long w_maps_live(void);
long w_fds_live(void);
long w_alloc_ord(void);
void w_check_quiesced(const char *when);	/* leaks */
void w_check_maps(int locked_op, const char *when);
long w_ncpu_model(void);
int w_fips_model(void);
unsigned w_cache_bits(int all);
extern unsigned char w_rand_last[64]; extern int w_rand_ok;	/* what the OS delivered for the last uuid */
long w_rand_calls(void);
void w_rand_expect(unsigned char out[16], int *ok);	/* model of the random source for the next identifier */
int w_kat_set(int broken);			/* 1 if the fault could be applied */
extern int w_kat_now;
extern int w_in_lib;
#endif
