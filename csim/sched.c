/*
 * The simulated threads.  The library is compiled with gcc's thread-sanitizer
 * instrumentation, whose run-time entry points are provided here: every memory
 * access of the library is a point at which the seeded scheduler may switch to
 * another thread.  Threads are coroutines of one process, so a seed determines
 * the interleaving completely.  Accesses to process-wide data are additionally
 * checked for ordering by vector clocks.
 */
#include "sched.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>

void *__real_mmap(void *, size_t, int, int, int, off_t);
void put(const char *fmt, ...);

co thr[MAXCO]; int nco; co *cur;
int sched_on, sc_conc, sc_starve, sc_starvep;
long sc_acc, sc_switches, sc_forced, sc_creates, sc_create_fail, sc_joins;
const void *sc_hot_lo, *sc_hot_hi;
int (*sc_cond)(co *);
static void forced_switch(void);
void sc_wait(void) { cur->state = CO_COND; while (cur->state == CO_COND) { if (sc_cond(cur)) { cur->state = CO_READY; break; } forced_switch(); } }
static long budget = 1L << 60;
static rng_t srng, frng;	/* voluntary preemptions / forced switches and quanta */
static long nrec;
static co *pick(int forced, rng_t *r); static void go(co *t);
static int next_pre, at_global;
static int sc_rvstall = 1;	/* and some are late in leaving */
long sc_rv;	/* rendezvous: each thread waits at its first write to the sc_rv-th process-wide variable until the others get there */
static int rv_parked(co *c) { for (int i = 1; i < nco; i++) if (thr[i].worker && &thr[i] != c && thr[i].state != CO_DONE && thr[i].state != CO_FREE && !thr[i].rv) return sc_acc > c->rv_end; return 1; }
static void rendezvous(const void *a)
{
	static const void *seen[64]; static int ns; int i;
	for (i = 0; i < ns && seen[i] != a; i++) ;
	if (i == ns && ns < 64) seen[ns++] = a;
	if (i + 1 != sc_rv || !cur->worker || cur->rv) return;
	cur->rv = 1; cur->rv_end = sc_acc + 30000000; stat_add("fault.rendezvous", 1);
	co *n;
	if (rv_parked(cur) || !(n = pick(0, &srng))) return;
	if (nrec < 4000) { put("P pre %ld %d\n", sc_acc, n->id); nrec++; }
	go(n);
}
static long max_acc = 400000000L;

extern char __data_start[], _end[];

/* ---- context switch ---- */
__attribute__((naked, noinline)) static void ctx_switch(void **from, void *to)
{
	__asm__ volatile("pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
			 "movq %rsp, (%rdi)\n movq %rsi, %rsp\n"
			 "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}
static void co_main(void);
co *co_new(void *(*fn)(void *), void *arg)
{
	int i;
	for (i = 1; i < MAXCO; i++) if (thr[i].state == CO_FREE) break;
	if (i == MAXCO) viol("thread-leak", "more than %d threads alive", MAXCO);
	co *c = &thr[i];
	void *stk = c->stk; unsigned long keep = c->vc[i];
	memset(c, 0, sizeof *c);
	if (!stk) stk = __real_mmap(NULL, 256 * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	c->stk = stk; c->id = i; c->fn = fn; c->arg = arg; c->state = CO_READY; c->owner = cur->id;
	memcpy(c->vc, cur->vc, sizeof c->vc); if (c->vc[i] < keep) c->vc[i] = keep;
	c->vc[i]++; cur->vc[cur->id]++;
	void **sp = (void **)((char *)stk + 256 * 1024 - 64);
	*--sp = NULL;			/* alignment: rsp % 16 == 8 at entry */
	*--sp = (void *)co_main;
	for (int k = 0; k < 6; k++) *--sp = NULL;
	c->sp = sp;
	if (i >= nco) nco = i + 1;
	return c;
}
static void new_budget(void)
{
	if (cur->counting) {
		/* how long the counting thread runs before the reader gets the CPU back */
		co *o = &thr[cur->owner]; long sl = o->slices++;
		if (sc_starvep && rng_n(&frng, 1000) < (uint64_t)sc_starvep) { sc_starve = 1 + (int)rng_n(&frng, 60); stat_add("fault.starve", 1); }
		if (sl >= o->st_from && sl < o->st_from + o->st_len) { stat_add("fault.steady_tick", 1); budget = 3; return; }
		budget = 9 + (long)rng_n(&frng, 1 + (1UL << (4 + rng_n(&frng, 8))));
		return;
	}
	if (!sched_on || P.explicit_sched) {
		budget = 1L << 60;
		if (P.explicit_sched && sched_on) {
			while (next_pre < P.npre && P.pre[next_pre].step <= sc_acc) next_pre++;
			budget = next_pre < P.npre ? P.pre[next_pre].step - sc_acc : 1L << 60;
		}
		return;
	}
	budget = 1 + (long)rng_n(&srng, 1 + 2 * (uint64_t)P.quantum);
}
static void go(co *t)
{
	co *f = cur;
	if (t == f) return;
	f->err = errno;
	cur = t; sc_switches++;
	sig_u64((uint64_t)t->id * 31 + (uint64_t)f->id);
	w_ctx_select(t->ctx);
	errno = t->err;
	new_budget();
	ctx_switch(&f->sp, t->sp);
}
static co *pick(int forced, rng_t *r)
{
	co *c[MAXCO]; int n = 0, m = 0, q = 0, v = 0; co *w[MAXCO], *st[MAXCO], *pk[MAXCO];
	for (int i = 0; i < nco; i++) {
		co *k = &thr[i];
		if (k->state == CO_COND && sc_cond(k)) k->state = CO_READY;
		if (k->state != CO_READY || k == cur) continue;
		if (k->rv == 1) { if (!rv_parked(k)) { pk[v++] = k; continue; } k->rv = 2; if (sc_rvstall && rng_n(r, 100) < 60) k->stall = sc_acc + (rng_n(r, 2) ? 1L << 26 : (long)rng_n(r, 1UL << (14 + rng_n(r, 12)))); }
		if (k->counting && !forced && thr[k->owner].state == CO_READY && (sc_starve || (thr[k->owner].slices >= thr[k->owner].st_from && thr[k->owner].slices < thr[k->owner].st_from + thr[k->owner].st_len))) { w[m++] = k; continue; }
		if (k->stall > sc_acc) { st[q++] = k; continue; }
		c[n++] = k;
	}
	if (n) return c[rng_n(r, (uint64_t)n)];
	if (q && (cur->state != CO_READY || forced || cur->rv == 1)) return st[rng_n(r, (uint64_t)q)];
	if (v && (cur->state != CO_READY || forced)) return pk[rng_n(r, (uint64_t)v)];
	if (m && cur->state != CO_READY) return w[rng_n(r, (uint64_t)m)];
	return NULL;
}
static void co_main(void)
{
	co *me = cur;
	me->fn(me->arg);
	if (me->counting) con_counted(me);
	me->state = CO_DONE;
	for (int i = 0; i < nco; i++) if (thr[i].state == CO_JOIN && thr[i].wait_for == me->id) { thr[i].state = CO_READY; thr[i].wait_for = 0; }
	sc_forced++;
	co *n = pick(1, &frng);
	if (!n) viol("deadlock", "no thread can run: a thread waits for one that never ends");
	go(n);
	viol("deadlock", "a finished thread was scheduled");
}
static void forced_switch(void)
{
	sc_forced++;
	co *n = pick(1, &frng);
	if (!n) { if (cur->state != CO_READY) viol("deadlock", "no thread can run: a thread waits for one that never ends"); return; }
	go(n);
}
void co_run_all(int n_workers)
{
	(void)n_workers;
	for (;;) {
		int busy = 0;
		for (int i = 1; i < nco; i++) if (thr[i].worker && thr[i].state != CO_DONE && thr[i].state != CO_FREE) busy = 1;
		if (!busy) break;
		cur->state = CO_JOIN; cur->wait_for = -1;
		for (int i = 1; i < nco; i++) if (thr[i].worker && thr[i].state != CO_DONE) { cur->wait_for = i; break; }
		forced_switch();
	}
	for (int i = 1; i < nco; i++) if (thr[i].worker && thr[i].state == CO_DONE) {
		for (int k = 0; k < MAXCO; k++) if (cur->vc[k] < thr[i].vc[k]) cur->vc[k] = thr[i].vc[k];
		thr[i].state = CO_FREE; thr[i].worker = 0;
	}
}
static struct { const void *m; int owner; } mtx[64]; static int nmtx;
void sched_reset(void)
{
	memset(thr, 0, sizeof thr); nco = 1; cur = &thr[0];
	nmtx = 0;
	cur->state = CO_READY; cur->vc[0] = 1;
	srng.s = P.schedseed * 77 + 5; frng.s = P.schedseed * 131 + 9;
	budget = 1L << 60;
}
long sched_live_counting(int owner)
{
	long n = 0;
	for (int i = 1; i < nco; i++) if (thr[i].counting && thr[i].owner == owner && thr[i].state != CO_FREE) n++;
	return n;
}

/* ---- preemption points ---- */
static void preempt(void)
{
	if (sc_acc > max_acc) viol("hang", "the calls do not terminate: %ld memory accesses without completing", sc_acc);
	if (cur->counting) {	/* its time slice is over */
		co *n = pick(0, &frng);
		if (n) go(n); else new_budget();
		return;
	}
	if (!sched_on) { budget = 1L << 60; return; }
	co *n;
	if (P.explicit_sched) {
		int t = P.pre[next_pre].thr; next_pre++;
		n = t >= 0 && t < MAXCO && thr[t].state == CO_READY ? &thr[t] : NULL;
	} else n = pick(0, &srng);
	if (n && n != cur) {
		if (at_global && P.pct && rng_n(&srng, 100) < (at_global > 1 ? 70 : 15)) { cur->stall = sc_acc + (at_global > 1 && rng_n(&srng, 4) ? (long)rng_n(&srng, 1UL << (16 + rng_n(&srng, 8))) : (long)rng_n(&srng, 1UL << (6 + rng_n(&srng, 16)))); stat_add("fault.stalled_thread", 1); }
		at_global = 0;
		if (sc_conc && nrec < 4000) { put("P pre %ld %d\n", sc_acc, n->id); nrec++; }
		go(n);
	} else { at_global = 0; new_budget(); }
}
static unsigned char *const glo = (unsigned char *)__data_start, *const ghi = (unsigned char *)_end;

static void race_access(const void *a, int n, int wr, int atomic);
static inline void acc(const void *a, int n, int wr)
{
	sc_acc++;
	if (__builtin_expect((unsigned char *)a >= glo && (unsigned char *)a < ghi, 0)) {
		if (sched_on && !P.explicit_sched && rng_n(&srng, 100) < (uint64_t)P.schedp) budget = 1, at_global = 1 + wr;
		race_access(a, n, wr, 0);
		if (wr && sc_rv && sc_conc && !P.explicit_sched) rendezvous(a);
	} else if (sc_hot_lo && (const char *)a >= (const char *)sc_hot_lo && (const char *)a < (const char *)sc_hot_hi) {
		if (sched_on && !P.explicit_sched && rng_n(&srng, 1000) < (uint64_t)P.pct) budget = 1, at_global = 1;
	}
	if (wr && n == 1 && P.work) con_work(a);
	if (__builtin_expect(--budget <= 0, 0)) preempt();
}
#define RW(N) \
void __tsan_read##N(void *a) { acc(a, N, 0); } void __tsan_write##N(void *a) { acc(a, N, 1); } \
void __tsan_unaligned_read##N(void *a) { acc(a, N, 0); } void __tsan_unaligned_write##N(void *a) { acc(a, N, 1); } \
void __tsan_volatile_read##N(void *a) { acc(a, N, 0); } void __tsan_volatile_write##N(void *a) { acc(a, N, 1); } \
void __tsan_unaligned_volatile_read##N(void *a) { acc(a, N, 0); } void __tsan_unaligned_volatile_write##N(void *a) { acc(a, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { acc(a, (int)n, 0); }
void __tsan_write_range(void *a, unsigned long n) { acc(a, (int)n, 1); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }

/* ---- happens-before check on process-wide data ---- */
typedef struct { const unsigned char *a; unsigned long wclk; int wtid, watomic; unsigned long rclk[MAXCO]; unsigned char used; } shadow;
static shadow *sh; static int nsh;
#define NSH 16384
static shadow *sh_get(const unsigned char *a)
{
	if (!sh) sh = __real_mmap(NULL, NSH * sizeof *sh, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	unsigned long i = (unsigned long)a * 0x9e3779b97f4a7c15UL >> 50;
	for (int k = 0; k < NSH; k++, i = (i + 1) % NSH) {
		if (sh[i].used && sh[i].a == a) return &sh[i];
		if (!sh[i].used) { if (nsh > NSH / 2) return NULL; nsh++; sh[i].used = 1; sh[i].a = a; return &sh[i]; }
	}
	return NULL;
}
static void race_access(const void *p, int n, int wr, int atomic)
{
	if (!sc_conc) return;
	for (int i = 0; i < n && i < 64; i++) {
		shadow *s = sh_get((const unsigned char *)p + i);
		if (!s) return;
		if (s->wclk && s->wtid != cur->id && s->wclk > cur->vc[s->wtid] && !(atomic && s->watomic))
			viol("data-race", "threads %d and %d access process-wide data (%s) without ordering, at least one of them writing", s->wtid, cur->id, wr ? "write" : "read");
		if (wr) {
			for (int t = 0; t < nco; t++)
				if (t != cur->id && s->rclk[t] > cur->vc[t] && !(atomic && s->watomic))
					viol("data-race", "threads %d and %d access process-wide data (read/write) without ordering, at least one of them writing", t, cur->id);
			s->wclk = cur->vc[cur->id]; s->wtid = cur->id; s->watomic = atomic;
		} else if (!atomic) s->rclk[cur->id] = cur->vc[cur->id];
	}
}
typedef struct { const void *a; unsigned long vc[MAXCO]; } syncv;
static syncv sv[512]; static int nsv;
static syncv *sv_get(const void *a)
{
	for (int i = 0; i < nsv; i++) if (sv[i].a == a) return &sv[i];
	if (nsv == 512) return NULL;
	memset(&sv[nsv], 0, sizeof sv[0]); sv[nsv].a = a;
	return &sv[nsv++];
}
static void acquire(const void *a, int mo) { syncv *s = sv_get(a); if (s && (mo == 0 || mo == 3)) for (int k = 0; k < MAXCO; k++) if (cur->facq[k] < s->vc[k]) cur->facq[k] = s->vc[k]; if (mo == 0 || mo == 3) return; if (s) for (int k = 0; k < MAXCO; k++) if (cur->vc[k] < s->vc[k]) cur->vc[k] = s->vc[k]; }
static void release(const void *a, int mo, int rmw)
{
	syncv *s = sv_get(a); if (!s) return;
	if (mo == 0 || mo == 1 || mo == 2) {	/* a relaxed store heads no release sequence, unless a release fence precedes it */
		if (!rmw) memset(s->vc, 0, sizeof s->vc);
		if (cur->has_frel) for (int k = 0; k < MAXCO; k++) if (s->vc[k] < cur->frel[k]) s->vc[k] = cur->frel[k];
		return;
	}
	if (!rmw) memcpy(s->vc, cur->vc, sizeof s->vc);
	else for (int k = 0; k < MAXCO; k++) if (s->vc[k] < cur->vc[k]) s->vc[k] = cur->vc[k];
	cur->vc[cur->id]++;
}
static void atom(const void *a, int n, int wr)
{
	sc_acc++;
	if (wr && sc_rv && sc_conc && !P.explicit_sched && (const unsigned char *)a >= glo && (const unsigned char *)a < ghi) rendezvous(a);
	if (sched_on && !P.explicit_sched && rng_n(&srng, 100) < (uint64_t)P.schedp) budget = 1, at_global = 1 + wr;
	if (--budget <= 0) preempt();
	if ((const unsigned char *)a >= glo && (const unsigned char *)a < ghi) race_access(a, n, wr, 1);
}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int mo) { atom((const void *)a, B / 8, 0); acquire((const void *)a, mo); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { atom((const void *)a, B / 8, 1); release((const void *)a, mo, 0); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { atom((const void *)a, B / 8, 1); acquire((const void *)a, mo); release((const void *)a, mo, 1); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { atom((const void *)a, B / 8, 1); acquire((const void *)a, mo); release((const void *)a, mo, 1); T o = *a; *a = (T)(o + v); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { atom((const void *)a, B / 8, 1); acquire((const void *)a, mo); release((const void *)a, mo, 1); T o = *a; *a = (T)(o - v); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { atom((const void *)a, B / 8, 1); acquire((const void *)a, mo); release((const void *)a, mo, 1); T o = *a; *a = (T)(o | v); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { atom((const void *)a, B / 8, 1); acquire((const void *)a, mo); release((const void *)a, mo, 1); T o = *a; *a = (T)(o & v); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { atom((const void *)a, B / 8, 1); acquire((const void *)a, mo); release((const void *)a, mo, 1); T o = *a; *a = (T)(o ^ v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { atom((const void *)a, B / 8, 1); if (*a == *c) { acquire((const void *)a, mo); release((const void *)a, mo, 1); *a = v; return 1; } acquire((const void *)a, fmo); *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo)
{
	if (mo == 1 || mo == 2 || mo >= 4) for (int k = 0; k < MAXCO; k++) if (cur->vc[k] < cur->facq[k]) cur->vc[k] = cur->facq[k];
	if (mo >= 3) { memcpy(cur->frel, cur->vc, sizeof cur->frel); cur->has_frel = 1; cur->vc[cur->id]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- thread services ---- */
int __wrap_pthread_attr_init(pthread_attr_t *a) { long v; memset(a, 0, sizeof *a); if (w_fault("attr", &v)) { sc_creates++; cur->creates++; sc_create_fail++; cur->create_fail++; return (int)(v ? v : ENOMEM); } cur->attrs++; return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { (void)a; cur->attrs--; return 0; }
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
	long v; (void)at;
	sc_creates++; cur->creates++; stat_add("os.pthread_create", 1);
	if (w_fault("thread", &v)) { sc_create_fail++; cur->create_fail++; return (int)(v ? v : EAGAIN); }
	co *c = co_new(fn, arg);
	c->counting = 1; c->ctx = 62;
	*id = (pthread_t)(c->id + 1000);
	if (rng_n(&frng, 100) < 50) forced_switch();	/* may start before or after the creator goes on */
	return 0;
}
static int the_join(pthread_t id)
{
	long i = (long)id - 1000;
	if (i <= 0 || i >= MAXCO || !thr[i].counting || thr[i].state == CO_FREE) viol("join-bad", "a thread that does not exist (or was joined before) is joined");
	if (thr[i].owner != cur->id && thr[i].joined) viol("join-bad", "a thread is joined twice");
	thr[i].joined = 1; sc_joins++;
	int st = sc_starve; sc_starve = 0;
	while (thr[i].state != CO_DONE) { cur->state = CO_JOIN; cur->wait_for = (int)i; forced_switch(); }
	sc_starve = st;
	for (int k = 0; k < MAXCO; k++) if (cur->vc[k] < thr[i].vc[k]) cur->vc[k] = thr[i].vc[k];
	thr[i].state = CO_FREE; thr[i].counting = 0;
	return 0;
}
int __wrap_pthread_join(pthread_t id, void **r) { if (r) *r = NULL; return the_join(id); }
int __wrap_pthread_detach(pthread_t id) { (void)id; viol("thread-leak", "a counting thread was detached: nothing waits for its end any more"); return 0; }
int __wrap_sched_yield(void)
{
	cur->yields++; sc_acc++;
	if (cur->yields > 200000 && cur->yields % 4096 == 0 && !cur->counting && cur->creates && !sched_live_counting(cur->id)) viol("hang", "a call waits for a counting thread that does not exist");
	if (cur->yields % 4096 == 0 && sc_acc + 1000 > max_acc) viol("hang", "the calls do not terminate");
	if (sc_starve && !cur->counting && rng_n(&frng, 100) < 90) { sc_acc++; sc_starve--; if (sc_starve < 0) sc_starve = 0; return 0; }
	forced_switch();
	return 0;
}
/* locks: none in the library today; for code that replaces its atomics with them */
static int *mtx_owner(const void *m)
{
	for (int i = 0; i < nmtx; i++) if (mtx[i].m == m) return &mtx[i].owner;
	if (nmtx == 64) viol("lock-bad", "more than 64 locks");
	mtx[nmtx].m = m; mtx[nmtx].owner = -1;
	return &mtx[nmtx++].owner;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	int *o = mtx_owner(m);
	atom(m, 0, 1);
	if (*o >= 0) return EBUSY;
	*o = cur->id; acquire(m, 2);
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	int *o = mtx_owner(m);
	if (*o == cur->id) viol("deadlock", "a thread locks a mutex it holds already");
	while (__wrap_pthread_mutex_trylock(m)) { if (sc_acc > max_acc) viol("hang", "the calls do not terminate"); forced_switch(); }
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int *o = mtx_owner(m);
	if (*o != cur->id) viol("lock-bad", "a mutex is unlocked by a thread that does not hold it");
	release(m, 3, 0); *o = -1;
	atom(m, 0, 1);
	return 0;
}
int __wrap_pthread_once(pthread_once_t *k, void (*fn)(void))
{
	int *o = mtx_owner(k);
	__wrap_pthread_mutex_lock((void *)k);
	if (!*(int *)k) { *(int *)k = 2; fn(); }
	*o = cur->id;
	__wrap_pthread_mutex_unlock((void *)k);
	return 0;
}
