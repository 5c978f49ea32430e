/* The simulated kernel: seeded scheduler and the kernel services the module uses. */
#include "ksim.h"
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

void put(const char *fmt, ...);
kco kt[MAXK]; int nkt; kco *kc;
long ks_acc, ks_now = 1000; int ks_sched_on, ks_mod_state, ks_lockdown, ks_cap = 1, ks_kat, ks_stop;
kfile kf[NFILE]; ktfm ktf[NTFM]; long ks_modref;
struct miscdevice *ks_misc; struct hwrng *ks_hw; long ks_hw_users; struct rng_alg *ks_alg;
int fips_enabled; struct module ks_this_module = { "jitter_rng" };
static struct workqueue_struct wqs[1];
struct workqueue_struct *system_wq = wqs, *system_power_efficient_wq = wqs, *system_long_wq = wqs, *system_unbound_wq = wqs, *system_freezable_power_efficient_wq = wqs, *system_percpu_wq = wqs, *system_dfl_wq = wqs;
static rng_t srng, frng, xrng; static long budget = 1L << 22, nrec; static int next_pre; static long max_acc = 30000000L;

/* ---- coroutines ---- */
__attribute__((naked, __noinline__)) static void ctx_switch(void **from, void *to)
{
	__asm__ volatile("pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
			 "movq %rsp, (%rdi)\n movq %rsi, %rsp\n"
			 "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}
static void new_budget(void)
{
	if (!ks_sched_on) { budget = 1L << 22; return; }
	if (P.explicit_sched) {
		while (next_pre < P.npre && P.pre[next_pre].step <= ks_acc) next_pre++;
		budget = next_pre < P.npre ? P.pre[next_pre].step - ks_acc : 1L << 22;
		return;
	}
	budget = 1 + (long)rng_n(&srng, 1 + 2 * (uint64_t)P.quantum);
}
static void go(kco *t)
{
	kco *f = kc;
	if (t == f) return;
	kc = t;
	sig_u64((uint64_t)t->id * 31 + (uint64_t)f->id);
	new_budget();
	ctx_switch(&f->sp, t->sp);
}
static kco *pick(rng_t *r, int any)
{
	kco *c[MAXK], *q[MAXK]; int n = 0, m = 0;
	for (int i = 0; i < nkt; i++) {
		kco *k = &kt[i];
		if (k->state == K_WAIT && k->cond(k)) k->state = K_READY;
		if (k->state != K_READY || k == kc) continue;
		if (k->stall > ks_acc) { q[m++] = k; continue; }
		c[n++] = k;
	}
	if (n) return c[rng_n(r, (uint64_t)n)];
	if (m && any) return q[rng_n(r, (uint64_t)m)];
	return NULL;
}
static void deadlock(void)
{
	char b[300]; int n = 0; b[0] = 0;
	for (int i = 0; i < nkt && n < 250; i++) if (kt[i].state == K_WAIT && kt[i].op) n += snprintf(b + n, sizeof b - (size_t)n, " thread %d in %s;", i, kt[i].op->name);
	viol("deadlock", "no thread can run:%s", b);
}
void k_wait(int (*cond)(kco *), void *arg)
{
	kc->cond = cond; kc->carg = arg; kc->cn = 0;
	while (!cond(kc)) {
		kc->state = K_WAIT;
		kco *n = pick(&frng, 1);
		if (!n) { if (cond(kc)) break; deadlock(); }
		go(n);
	}
	kc->state = K_READY;
}
static void co_main(void)
{
	kc->fn(kc->arg);
	kc->state = K_DONE;
	kco *n = pick(&frng, 1);
	if (!n) deadlock();
	go(n);
	viol("deadlock", "finished thread scheduled");
}
kco *k_new(void *(*fn)(void *), void *arg)
{
	if (nkt == MAXK) viol("crash", "too many threads in the plan");
	kco *c = &kt[nkt]; memset(c, 0, sizeof *c);
	c->id = nkt; c->task.id = nkt; nkt++;
	c->stk = mmap(NULL, 256 * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	c->fn = fn; c->arg = arg; c->state = K_READY;
	void **sp = (void **)((char *)c->stk + 256 * 1024 - 64);
	*--sp = NULL; *--sp = (void *)co_main;
	for (int k = 0; k < 6; k++) *--sp = NULL;
	c->sp = sp;
	return c;
}
static int all_done(kco *c) { (void)c; for (int i = 1; i < nkt; i++) if (kt[i].worker && kt[i].state != K_DONE) return 0; return 1; }
void k_run_all(void) { ks_sched_on = 1; new_budget(); k_wait(all_done, NULL); ks_sched_on = 0; budget = 1L << 22; }
static void preempt(void)
{
	if (ks_acc > max_acc || (!ks_real && ks_acc > max_acc / 4)) viol("hang", "the calls do not terminate");
	if (!ks_sched_on) { budget = 1L << 22; return; }
	kco *n;
	if (P.explicit_sched && (next_pre >= P.npre || P.pre[next_pre].step > ks_acc)) { new_budget(); return; }
	if (P.explicit_sched) { int t = P.pre[next_pre].thr; next_pre++; n = t >= 0 && t < nkt && (kt[t].state == K_READY || (kt[t].state == K_WAIT && kt[t].cond(&kt[t]))) ? &kt[t] : NULL; if (n) n->state = K_READY; }
	else n = pick(&srng, 0);
	if (n && n != kc) {
		if (!P.explicit_sched && P.pct && rng_n(&srng, 100) < (uint64_t)P.pct) { kc->stall = ks_acc + (long)rng_n(&srng, 1UL << (4 + rng_n(&srng, 9))); stat_add("fault.stalled_thread", 1); }
		if (nrec < 4000) { put("P pre %ld %d\n", ks_acc, n->id); nrec++; }
		go(n);
	} else new_budget();
}
static void acc(void) { ks_acc++; if (__builtin_expect(--budget <= 0, 0)) preempt(); }
void k_point(void)
{
	long v;
	if (kc->op) {
		kc->op->points++;
		if (!kc->sig && k_fault("sig", &v)) { kc->sig = 1; }
	}
	acc();
}
void k_mix(void)
{
	k_point();
	if (ks_sched_on && !P.explicit_sched && rng_n(&srng, 100) < (uint64_t)P.schedp) budget = 1;
	acc();
}
void k_reset(void)
{
	nkt = 1; kc = &kt[0]; kc->state = K_READY;
	srng.s = P.schedseed * 77 + 5; frng.s = P.schedseed * 131 + 9; xrng.s = P.clkseed * 3 + 7;
}
/* the module's own accesses: a place to switch, and never into a generator another caller is inside */
static void mrd(void *a) { acc(); if (__builtin_expect(ks_inside != 0, 0)) kj_touch(a, 0); }
static void mwr(void *a) { acc(); if (__builtin_expect(ks_inside != 0, 0)) kj_touch(a, 1); }
#define RW(N) void __tsan_read##N(void *a) { mrd(a); } void __tsan_write##N(void *a) { mwr(a); } \
void __tsan_unaligned_read##N(void *a) { mrd(a); } void __tsan_unaligned_write##N(void *a) { mwr(a); } \
void __tsan_volatile_read##N(void *a) { mrd(a); } void __tsan_volatile_write##N(void *a) { mwr(a); } \
void __tsan_unaligned_volatile_read##N(void *a) { mrd(a); } void __tsan_unaligned_volatile_write##N(void *a) { mwr(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { (void)n; mrd(a); } void __tsan_write_range(void *a, unsigned long n) { (void)n; mwr(a); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int mo) { (void)mo; acc(); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { (void)mo; acc(); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { (void)mo; acc(); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { (void)mo; acc(); T o = *a; *a = (T)(o + v); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; acc(); T o = *a; *a = (T)(o - v); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { (void)mo; acc(); T o = *a; *a = (T)(o | v); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { (void)mo; acc(); T o = *a; *a = (T)(o & v); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; acc(); T o = *a; *a = (T)(o ^ v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) { (void)mo; (void)f; acc(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, f); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, f); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { (void)mo; } void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- faults ---- */
static struct { char kind[16]; int op; long n; } cnt[2048]; static int ncnt;
int ks_nofault;
int k_fault(const char *kind, long *val)
{
	if (ks_nofault) return 0;
	int op = kc->op ? kc->op->id : WQ_OP, i;
	for (i = 0; i < ncnt; i++) if (cnt[i].op == op && !strcmp(cnt[i].kind, kind)) break;
	if (i == ncnt) { if (ncnt == 2048) return 0; snprintf(cnt[i].kind, 16, "%s", kind); cnt[i].op = op; ncnt++; }
	long o = cnt[i].n++;
	for (int k = 0; k < P.nf; k++) {
		fault_t *f = &P.f[k];
		if (f->op == op && !strcmp(f->kind, kind) && o >= f->ord && o < f->ord + f->cnt) {
			char b[32]; snprintf(b, sizeof b, "fault.%s", kind); stat_add(b, 1);
			*val = f->val; tr("  fault %s #%ld val %ld (op %d)", kind, o, f->val, op);
			return 1;
		}
	}
	return 0;
}

/* ---- memory ---- */
typedef struct { unsigned char *p, *map; size_t n, maplen; int live, core, op; } kalloc;
static kalloc *ka; static int nka, cka;
static kalloc *ka_find(const void *p)
{
	for (int i = nka - 1; i >= 0; i--) if (ka[i].p == p && ka[i].live) return &ka[i];
	return NULL;
}
void *ks_alloc(size_t n, gfp_t f, int zero)
{
	long v; (void)f;
	k_point();
	if (kc->op) kc->op->nalloc++;
	if (k_fault("kmem", &v)) { if (kc->op && !kc->core) kc->op->alloc_fail++; return NULL; }
	size_t pg = (n + 4095) & ~4095UL; if (!pg) pg = 4096;
	unsigned char *m = mmap(NULL, pg + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) viol("crash", "simulator out of memory");
	mprotect(m + pg, 4096, PROT_NONE);
	unsigned char *p = m + ((pg - n) & ~15UL);
	if (!zero) memset(p, 0x5c, n);
	if (nka == cka) { cka = cka ? cka * 2 : 256; ka = realloc(ka, (size_t)cka * sizeof *ka); }
	ka[nka++] = (kalloc){ p, m, n, pg + 4096, 1, kc->core > 0, kc->op ? kc->op->id : WQ_OP };
	return p;
}
static struct delayed_work *wk[256]; static int nwk;
static void free_checks(kalloc *a)
{
	for (int i = 0; i < nwk; i++) if ((unsigned char *)wk[i] >= a->p && (unsigned char *)wk[i] < a->p + a->n) {
		if (wk[i]->pending || wk[i]->running) viol("use-after-free", "memory is released while its periodic self test is still %s", wk[i]->running ? "running" : "queued");
		wk[i] = wk[--nwk]; i--;
	}
	for (int t = 0; t < nkt; t++) for (int h = 0; h < kt[t].held; h++) if ((unsigned char *)kt[t].heldm[h] >= a->p && (unsigned char *)kt[t].heldm[h] < a->p + a->n)
		viol("use-after-free", "memory is released while a lock in it is held");
	if (a->core && ks_real) for (size_t i = 0; i < a->n; i++) if (a->p[i]) viol("unwiped", "generator state is released without being overwritten");
	for (size_t i = 0; i + 8 <= a->n; i++) if (a->p[i + 7] == 0x9d && a->p[i + 6] == 0x7e && a->p[i + 5] == 0x57 && !a->core) viol("unwiped", "kernel memory is released with generated data in it");
}
static void do_free(const void *p, size_t wipe)
{
	if (!p) return;
	k_point();
	kalloc *a = ka_find(p);
	if (!a) viol("double-free", "memory is released that is not allocated (any more)");
	if (wipe) memset(a->p, 0, wipe < a->n ? wipe : a->n);
	if (wipe != (size_t)-1 && wipe > a->n) viol("overflow", "more memory is wiped than was allocated");
	free_checks(a);
	a->live = 0;
	mprotect(a->map, a->maplen, PROT_NONE);
}
void ks_free(const void *p, size_t wipe) { do_free(p, wipe); }
void ks_free_sensitive(const void *p, size_t n) { do_free(p, n); }
void memzero_explicit(void *p, size_t n) { memset(p, 0, n); __asm__ volatile("" ::: "memory"); }
static void segv(int s, siginfo_t *si, void *u)
{
	(void)u; unsigned char *a = si->si_addr;
	for (int i = 0; i < nka; i++) if (a >= ka[i].map && a < ka[i].map + ka[i].maplen) {
		if (!ka[i].live) viol("use-after-free", "released memory is used (in %s)", kc->op ? kc->op->name : "periodic work");
		viol("overflow", "memory beyond an allocation is accessed");
	}
	viol("crash", "invalid memory access (signal %d) in %s", s, kc->op ? kc->op->name : "periodic work");
}
__attribute__((constructor)) static void init_segv(void) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); }

/* ---- console ---- */
int ks_printk(const char *f, ...) { char b[1200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); k_point(); tr("  printk %s", b); stat_add("ev.printk", 1); return 0; }
int ks_warn(const char *w) { viol("kernel-warning", "warning in the module: %s", w); return 1; }
void ks_panic(const char *f, ...)
{
	(void)f;
	if (!fips_enabled) viol("false-panic", "the machine is stopped outside FIPS mode");
	if (!kc->op || !kc->op->must_panic) viol("false-panic", "the machine is stopped without a permanent failure");
	stat_add("ev.panic", 1); hist_u64(0xdead);
	run_end();
}
char *kasprintf(gfp_t g, const char *f, ...) { char t[4096]; va_list ap; va_start(ap, f); int r = vsnprintf(t, sizeof(t), f, ap); va_end(ap); char *p = ks_alloc((size_t)r + 1, g, 0); if (p) memcpy(p, t, (size_t)r + 1); return p; }
int scnprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r >= (int)n ? (n ? (int)n - 1 : 0) : r; }

/* ---- mutexes ---- */
static void mchk(struct mutex *m) { if (m->magic != KS_MUTEX_MAGIC) viol("bad-lock", "a lock is used that is not initialised (any more)"); }
void ks_mutex_init(struct mutex *m, const char *n) { k_point(); for (int t = 0; t < nkt; t++) for (int h = 0; h < kt[t].held && h < 8; h++) if (kt[t].heldm[h] == m) viol("bad-lock", "a lock is initialised while it is held"); m->magic = KS_MUTEX_MAGIC; m->owner = -1; m->name = n; }
void mutex_destroy(struct mutex *m) { mchk(m); k_point(); if (m->owner != -1) viol("bad-lock", "a lock is destroyed while held"); m->magic = 0xdead; }
static int m_free(kco *c) { struct mutex *m = c->carg; return m->owner == -1; }
static int m_free_int(kco *c)
{
	struct mutex *m = c->carg;
	if (m->owner == -1 || c->sig) return 1;
	if (c->isig && ++c->cn >= c->isig) { c->sig = 1; return 1; }
	return 0;
}
static void take(struct mutex *m) { m->owner = kc->id; if (kc->held < 8) kc->heldm[kc->held] = m; kc->held++; if (kc->op) kc->op->gap = 1; }
static void pre_lock(struct mutex *m, int block)
{
	mchk(m); k_mix(); mchk(m);
	if (block && m->owner == kc->id) viol("deadlock", "a thread takes a lock it already holds");
}
void mutex_lock(struct mutex *m)
{
	pre_lock(m, 1);
	while (m->owner != -1) { stat_add("ev.contended", 1); if (kc->op) kc->op->blocked++; k_wait(m_free, m); mchk(m); }
	take(m);
}
int mutex_lock_interruptible(struct mutex *m)
{
	long v = 0;
	pre_lock(m, 1);
	while (m->owner != -1) {
		stat_add("ev.contended", 1);
		if (kc->op) kc->op->blocked++;
		if (!kc->sig) { kc->isig = k_fault("sigblk", &v) ? (int)(v > 0 ? v : 1) : 0; k_wait(m_free_int, m); kc->isig = 0; mchk(m); }
		if (m->owner != -1 && kc->sig) { if (kc->op) kc->op->lock_int++; stat_add("ev.lock_interrupted", 1); return -EINTR; }
	}
	take(m);
	return 0;
}
int mutex_lock_killable(struct mutex *m) { return mutex_lock_interruptible(m); }
int mutex_trylock(struct mutex *m)
{
	pre_lock(m, 0);
	if (m->owner != -1) { if (kc->op) kc->op->try_fail++; stat_add("ev.trylock_busy", 1); return 0; }
	take(m);
	return 1;
}
void mutex_unlock(struct mutex *m)
{
	mchk(m);
	if (m->owner != kc->id) viol("bad-lock", "a lock is released by a thread that does not hold it");
	m->owner = -1; kc->held--;
	for (int i = 0; i < kc->held && i < 8; i++) if (kc->heldm[i] == m) { kc->heldm[i] = kc->heldm[kc->held]; break; }
	if (!kc->held && kc->op) kc->op->hold_bytes = 0;
	k_mix();
}
bool mutex_is_locked(struct mutex *m) { mchk(m); return m->owner != -1; }

/* ---- scheduling ---- */
struct task_struct *ks_current(void) { return &kc->task; }
int signal_pending(struct task_struct *t) { (void)t; k_point(); return kc->sig; }
int fatal_signal_pending(struct task_struct *t) { return signal_pending(t); }
bool need_resched(void) { return rng_n(&xrng, 3) == 0; }
void schedule(void) { if (kc->op) kc->op->gap = 1; k_mix(); }
int cond_resched(void) { schedule(); return 0; }
void msleep(unsigned m) { (void)m; schedule(); }
bool capable(int cap) { (void)cap; k_point(); return ks_cap && kc->op && kc->op->full != -1; }

/* ---- time, work ---- */
unsigned long ks_jiffies(void) { return (unsigned long)ks_now * HZ; }
u64 ktime_get_ns(void) { return (u64)ks_now * 1000000000ULL; }
static int wk_known(struct delayed_work *w) { for (int i = 0; i < nwk; i++) if (wk[i] == w) return 1; return 0; }
void ks_dwork_init(struct delayed_work *w, work_func_t f)
{
	k_point();
	w->work.magic = KS_MUTEX_MAGIC ^ 1; w->work.func = f; w->pending = w->running = 0;
	if (!wk_known(w)) { if (nwk == 256) viol("crash", "too many works"); wk[nwk++] = w; }
}
static void wchk(struct delayed_work *w) { if (w->work.magic != (KS_MUTEX_MAGIC ^ 1)) viol("bad-lock", "a work item is used that is not initialised"); }
bool queue_delayed_work(struct workqueue_struct *q, struct delayed_work *w, unsigned long d)
{
	(void)q; wchk(w); k_point(); wchk(w);
	if (w->pending) return false;
	w->pending = 1; w->due = ks_jiffies() + d;
	tr("  work queued, due in %lu s", d / HZ);
	return true;
}
bool mod_delayed_work(struct workqueue_struct *q, struct delayed_work *w, unsigned long d) { bool p = w->pending; w->pending = 0; queue_delayed_work(q, w, d); return p; }
static int w_idle(kco *c) { struct delayed_work *w = c->carg; return !w->running; }
bool cancel_delayed_work(struct delayed_work *w) { wchk(w); k_point(); bool p = w->pending; w->pending = 0; return p; }
bool cancel_delayed_work_sync(struct delayed_work *w)
{
	bool p = false;
	wchk(w); k_point(); wchk(w);
	do {
		if (w->pending) p = true;
		w->pending = 0;
		if (w->running) { stat_add("ev.cancel_waits", 1); if (kc->op) kc->op->blocked++; k_wait(w_idle, w); }
	} while (w->pending || w->running);
	k_point();
	return p;
}
bool flush_delayed_work(struct delayed_work *w) { wchk(w); if (w->pending) w->due = 0; k_wait(w_idle, w); return true; }
bool ks_dwork_pending(struct delayed_work *w) { return w->pending; }
static struct delayed_work *due(void)
{
	struct delayed_work *c[256]; int n = 0;
	for (int i = 0; i < nwk; i++) if (wk[i]->pending && !wk[i]->running && wk[i]->due <= ks_jiffies()) c[n++] = wk[i];
	return n ? c[rng_n(&xrng, (uint64_t)n)] : NULL;
}
static int any_due(kco *c) { (void)c; if (ks_stop) return 1; for (int i = 0; i < nwk; i++) if (wk[i]->pending && !wk[i]->running && wk[i]->due <= ks_jiffies()) return 1; return 0; }
void *ks_wq_thread(void *a)
{
	oprec *o = calloc(1, sizeof *o); (void)a;
	for (;;) {
		k_wait(any_due, NULL);
		if (ks_stop) break;
		struct delayed_work *w = due();
		if (!w) continue;
		w->pending = 0; w->running = 1;
		work_func_t f = w->work.func;
		stat_add("ev.work_run", 1);
		k_op_begin(o, WQ_OP, "periodic self test", -2);
		f(&w->work);
		if (wk_known(w)) w->running = 0;
		k_op_end(o, 0, 0);
	}
	return NULL;
}
static int quiet(kco *c) { (void)c; for (int i = 0; i < nwk; i++) if (wk[i]->running || (wk[i]->pending && wk[i]->due <= ks_jiffies())) return 0; return 1; }
void k_quiesce(void) { k_wait(quiet, NULL); }
long ks_works_pending(void) { long n = 0; for (int i = 0; i < nwk; i++) if (wk[i]->pending || wk[i]->running) n++; return n; }

/* ---- module ---- */
extern const struct ks_param __start_ks_params[], __stop_ks_params[];
void ks_param_set(const char *name, long v)
{
	for (const struct ks_param *p = __start_ks_params; p < __stop_ks_params; p++) if (!strcmp(p->name, name)) {
		if (p->size == 1) *(unsigned char *)p->addr = p->isbool ? !!v : (unsigned char)v;
		else if (p->size == 8) *(unsigned long *)p->addr = (unsigned long)v;
		else if (p->size == 2) *(unsigned short *)p->addr = (unsigned short)v;
		else *(unsigned *)p->addr = (unsigned)v;
		return;
	}
	viol("param-missing", "module parameter %s does not exist", name);
}
bool try_module_get(struct module *m) { (void)m; if (ks_mod_state != 2 && ks_mod_state != 1) return false; ks_modref++; return true; }
void module_put(struct module *m) { (void)m; ks_modref--; }

/* ---- user memory ---- */
static size_t user_ok(const void *p, unsigned long n)
{
	oprec *o = kc->op; const unsigned char *q = p;
	if (o && o->ub && q >= o->ub && n <= o->ubn && q - o->ub <= (long)(o->ubn - n)) return 1;
	if (o && o->ub2 && q >= o->ub2 && q + n <= o->ub2 + o->ub2n) return 1;
	return 0;
}
unsigned long copy_to_user(void *d, const void *s, unsigned long n)
{
	long v; unsigned long c = n;
	k_mix();
	if (!n) return 0;
	if (!kc->op || !user_ok(d, n)) viol("overflow", "%s writes outside the memory the caller gave", kc->op ? kc->op->name : "periodic work");
	if ((unsigned char *)d >= kc->op->ub && (unsigned char *)d + n > kc->op->ub + kc->op->ubmap && kc->op->ubmap < kc->op->ubn && (unsigned char *)d < kc->op->ub + kc->op->ubn) {
		/* the rest of the caller's buffer is not mapped */
		long left = kc->op->ub + kc->op->ubmap - (unsigned char *)d; c = left > 0 ? (unsigned long)left : 0; kc->op->copy_fault++; stat_add("fault.unmapped", 1);
	} else if (k_fault("copyto", &v)) { c = v < 0 ? 0 : (unsigned long)v % n; kc->op->copy_fault++; }
	memcpy(d, s, c);
	if ((unsigned char *)d >= kc->op->ub && (unsigned char *)d < kc->op->ub + kc->op->ubn) { kc->op->copied_all += (long)c; if (c == n) kc->op->copied_full += (long)n; }
	kc->op->gap = 1;
	k_mix();
	return n - c;
}
unsigned long copy_from_user(void *d, const void *s, unsigned long n)
{
	long v;
	k_mix();
	if (k_fault("copyfrom", &v)) { memset(d, 0, n); kc->op->from_fault++; return n; }
	if (!user_ok(s, n)) viol("overflow", "the caller's memory is read outside what was given");
	memcpy(d, s, n);
	return 0;
}
unsigned long clear_user(void *d, unsigned long n) { if (!user_ok(d, n)) viol("overflow", "the caller's memory is cleared outside what was given"); memset(d, 0, n); return 0; }
long compat_ptr_ioctl(struct file *f, unsigned c, unsigned long a) { return f->f_op->unlocked_ioctl ? f->f_op->unlocked_ioctl(f, c, a) : -ENOIOCTLCMD; }
loff_t noop_llseek(struct file *f, loff_t o, int w) { (void)o; (void)w; return f->f_pos; }
loff_t no_llseek(struct file *f, loff_t o, int w) { (void)f; (void)o; (void)w; return -29; }
loff_t default_llseek(struct file *f, loff_t o, int w) { (void)w; return f->f_pos = o; }
int nonseekable_open(struct inode *i, struct file *f) { (void)i; (void)f; return 0; }
int stream_open(struct inode *i, struct file *f) { (void)i; (void)f; return 0; }

/* ---- registrations ---- */
int misc_register(struct miscdevice *m)
{
	long v; k_mix();
	if (k_fault("misc", &v)) { kc->op->reg_fail++; return (int)-(v > 0 ? v : EBUSY); }
	if (ks_misc) viol("reg-twice", "the character device is registered twice");
	ks_misc = m; k_mix();
	return 0;
}
void misc_deregister(struct miscdevice *m) { k_mix(); if (ks_misc != m || !m) viol("bad-unreg", "a character device is unregistered that is not registered"); ks_misc = NULL; k_mix(); }
int hwrng_register(struct hwrng *h)
{
	long v; k_mix();
	if (!h->name || !h->read) return -EINVAL;
	if (k_fault("hwreg", &v)) { kc->op->reg_fail++; return (int)-(v > 0 ? v : EBUSY); }
	if (ks_hw) viol("reg-twice", "the hardware RNG is registered twice");
	if (h->quality > 1024) viol("quality", "an entropy quality of %u per 1024 is declared", h->quality);
	long want = cfgl("p_hwrng_quality", 0); if (want > 1024) want = 1024;
	if (h->quality != want) viol("quality", "the configured entropy quality is not the one declared (%u, not %ld)", h->quality, want);
	if (!h->quality) h->quality = 1024;
	ks_hw = h;
	if (cfgl("early", 0) & 2) { unsigned char b[16]; long g = kc->op->gen_fail_rc, mp = kc->op->must_panic; int r = h->read(h, b, sizeof b, false); kc->op->gen_fail_rc = g; kc->op->must_panic = (int)mp; tr("  early hwrng read %d", r); stat_add("ev.early_hwrng_read", 1); }
	k_mix();
	return 0;
}
static int hw_idle(kco *c) { (void)c; return ks_hw_users == 0; }
void hwrng_unregister(struct hwrng *h)
{
	k_mix();
	if (ks_hw != h || !h) viol("bad-unreg", "a hardware RNG is unregistered that is not registered");
	ks_hw = NULL;
	k_wait(hw_idle, NULL);
	if (h->cleanup) h->cleanup(h);
	k_mix();
}
int crypto_register_rng(struct rng_alg *a)
{
	long v; k_mix();
	if (k_fault("crreg", &v)) { kc->op->reg_fail++; return (int)-(v > 0 ? v : EEXIST); }
	if (ks_alg) viol("reg-twice", "the crypto algorithm is registered twice");
	ks_alg = a; k_mix();
	if (cfgl("early", 0) & 1) {
		/* the crypto core instantiates and exercises a new algorithm at once */
		struct crypto_rng t; unsigned char b[16]; oprec *o = kc->op; long g = o->galloc_fail, f = o->alloc_fail, e = o->gen_fail_rc, s = o->status_rc; int mp = o->must_panic, ow = o->owner;
		ks_nofault++; t.base.ctx = ks_alloc(a->base.cra_ctxsize, GFP_KERNEL, 1); ks_nofault--; o->owner = 2999;
		if (!a->base.cra_init(&t.base)) { a->generate(&t, NULL, 0, b, sizeof b); a->base.cra_exit(&t.base); }
		ks_nofault++; ks_free_sensitive(t.base.ctx, (size_t)-1); ks_nofault--; o->galloc_fail = g; o->alloc_fail = f; o->gen_fail_rc = e; o->status_rc = s; o->must_panic = mp; o->owner = ow;
		stat_add("ev.early_crypto_use", 1);
	}
	return 0;
}
void crypto_unregister_rng(struct rng_alg *a) { k_mix(); if (ks_alg != a || !a) viol("bad-unreg", "a crypto algorithm is unregistered that is not registered"); ks_alg = NULL; k_mix(); }
int crypto_register_rngs(struct rng_alg *a, int n) { return n == 1 ? crypto_register_rng(a) : -EINVAL; }
void crypto_unregister_rngs(struct rng_alg *a, int n) { (void)n; crypto_unregister_rng(a); }

/* ---- proc ---- */
static struct proc_dir_entry pe[200]; static int npe;
static struct proc_dir_entry *pnew(const char *n, struct proc_dir_entry *par, int dir)
{
	long v; k_mix();
	if (par && !par->live) viol("use-after-free", "a proc entry is created below a removed directory");
	if (k_fault(dir ? "procdir" : "proc", &v)) {
		int opt = !strcmp(n, "instances") || !strcmp(n, "hwrng_status") || (par && !strcmp(par->name, "instances"));
		if (!opt) kc->op->proc_fail_fatal++; else kc->op->full |= 2;
		return NULL;
	}
	for (int i = 0; i < npe; i++) if (pe[i].live && pe[i].parent == par && !strcmp(pe[i].name, n)) { if (par && !strcmp(par->name, "instances")) viol("proc-dup", "two instances are published under one name"); viol("proc-dup", "proc entry %s is created twice", n); }
	if (npe == 200) viol("crash", "too many proc entries");
	struct proc_dir_entry *e = &pe[npe++]; memset(e, 0, sizeof *e);
	snprintf(e->name, sizeof e->name, "%s", n); e->parent = par; e->dir = dir; e->live = 1;
	return e;
}
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *p) { struct proc_dir_entry *e = pnew(n, p, 1); k_mix(); return e; }
struct proc_dir_entry *proc_create_single_data(const char *n, umode_t m, struct proc_dir_entry *p, int (*s)(struct seq_file *, void *), void *d)
{
	if (m & 0222) viol("proc-mode", "proc file %s is writable", n);
	struct proc_dir_entry *e = pnew(n, p, 0);
	if (e) { e->data = d; e->show = s; }
	k_mix();
	return e;
}
static int p_idle(kco *c) { return ((struct proc_dir_entry *)c->carg)->inuse == 0; }
void proc_remove(struct proc_dir_entry *e)
{
	k_mix();
	if (!e) return;
	if (!e->live || e->removing) viol("double-free", "proc entry %s is removed twice", e->name);
	e->removing = 1;
	for (int i = 0; i < npe; i++) if (pe[i].live && pe[i].parent == e && !pe[i].removing) proc_remove(&pe[i]);
	if (e->inuse) { stat_add("ev.proc_remove_waits", 1); if (kc->op) kc->op->blocked++; }
	k_wait(p_idle, e);
	e->live = 0;
	k_mix();
}
void remove_proc_entry(const char *n, struct proc_dir_entry *p) { for (int i = 0; i < npe; i++) if (pe[i].live && pe[i].parent == p && !strcmp(pe[i].name, n)) { proc_remove(&pe[i]); return; } viol("bad-unreg", "proc entry %s does not exist", n); }
int remove_proc_subtree(const char *n, struct proc_dir_entry *p) { remove_proc_entry(n, p); return 0; }
struct proc_dir_entry *ks_proc_find(const char *path)
{
	struct proc_dir_entry *cur = NULL; char b[128]; snprintf(b, sizeof b, "%s", path); char *s = NULL;
	for (char *t = strtok_r(b, "/", &s); t; t = strtok_r(NULL, "/", &s)) {
		struct proc_dir_entry *n = NULL;
		for (int i = 0; i < npe; i++) if (pe[i].live && !pe[i].removing && pe[i].parent == cur && !strcmp(pe[i].name, t)) n = &pe[i];
		if (!n) return NULL;
		cur = n;
	}
	return cur;
}
struct proc_dir_entry *ks_proc_nth(const char *dir, int n)
{
	struct proc_dir_entry *d = ks_proc_find(dir), *c[200]; int k = 0;
	for (int i = 0; d && i < npe; i++) if (pe[i].live && !pe[i].removing && pe[i].parent == d && pe[i].show) c[k++] = &pe[i];
	return k ? c[k - 1 - n % k] : NULL;	/* the latest first */
}
int seq_write(struct seq_file *m, const void *s, size_t n) { k_point(); if (m->count + n + 1 > m->size) viol("overflow", "seq_file overflow"); memcpy(m->buf + m->count, s, n); m->count += n; m->buf[m->count] = 0; return 0; }
void seq_puts(struct seq_file *m, const char *s) { seq_write(m, s, strlen(s)); }
void seq_putc(struct seq_file *m, char c) { seq_write(m, &c, 1); }
void seq_printf(struct seq_file *m, const char *f, ...) { char b[5000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); seq_puts(m, b); }
void seq_put_decimal_ull(struct seq_file *m, const char *d, unsigned long long v) { seq_printf(m, "%s%llu", d ? d : "", v); }

/* ---- debugfs ---- */
static struct dentry de[16]; static int nde;
static struct dentry *dnew(const char *n, struct dentry *par, int dir)
{
	long v; k_mix();
	if (k_fault(dir ? "dbgdir" : "dbg", &v)) { kc->op->reg_fail++; return ERR_PTR(-(v > 0 ? v : ENOMEM)); }
	if (IS_ERR(par)) return par;
	if (par && !par->live) viol("use-after-free", "a debugfs file is created below a removed directory");
	struct dentry *d = &de[nde++]; memset(d, 0, sizeof *d); snprintf(d->name, sizeof d->name, "%s", n); d->parent = par; d->dir = dir; d->live = 1;
	return d;
}
struct dentry *debugfs_create_dir(const char *n, struct dentry *p) { return dnew(n, p, 1); }
struct dentry *debugfs_create_file(const char *n, umode_t m, struct dentry *p, void *d, const struct file_operations *f)
{
	(void)d;
	if (m & 0277) viol("raw-open", "the raw noise file is created with mode 0%o", m);
	if (ks_lockdown) viol("raw-open", "the raw noise file is created on a locked-down kernel");
	struct dentry *e = dnew(n, p, 0); if (!IS_ERR(e)) e->fops = f; k_mix(); return e;
}
struct dentry *debugfs_create_file_unsafe(const char *n, umode_t m, struct dentry *p, void *d, const struct file_operations *f) { struct dentry *e = debugfs_create_file(n, m, p, d, f); if (!IS_ERR(e)) e->unsafe = 1; return e; }
static int d_idle(kco *c) { return ((struct dentry *)c->carg)->inuse == 0; }
void debugfs_remove_recursive(struct dentry *d)
{
	k_mix();
	if (IS_ERR_OR_NULL(d)) return;
	if (!d->live) viol("double-free", "a debugfs entry is removed twice");
	for (int i = 0; i < nde; i++) if (de[i].live && de[i].parent == d) debugfs_remove_recursive(&de[i]);
	d->removed = 1;
	if (!d->unsafe) k_wait(d_idle, d);
	d->live = 0;
	k_mix();
}
struct dentry *ks_dbg_find(const char *n) { for (int i = 0; i < nde; i++) if (de[i].live && !de[i].removed && !strcmp(de[i].name, n)) return &de[i]; return NULL; }
int security_locked_down(enum lockdown_reason r) { k_point(); return ks_lockdown && r <= LOCKDOWN_INTEGRITY_MAX ? -EPERM : 0; }
int __ratelimit(struct ratelimit_state *r) { return ++r->n <= 10; }

/* ---- CPUs, random ---- */
struct cpuinfo_x86 boot_cpu_data = { 0x16, 0x80000021u };
static int on_cpu;
unsigned num_online_cpus(void) { return (unsigned)(P.ncpu > 0 ? P.ncpu : 1); }
void cpus_read_lock(void) {} void cpus_read_unlock(void) {}
int ks_next_online(int c) { return c + 1 < (int)num_online_cpus() ? c + 1 : -1; }
int smp_call_function_single(int cpu, void (*f)(void *), void *i, int w) { (void)w; long v; if (k_fault("smp", &v)) return -ENXIO; on_cpu = cpu; f(i); return 0; }
void cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	long sz[3] = { P.l1, P.l2 << (on_cpu & 1), P.l3 }; static const int lv[4] = { 1, 1, 2, 3 }, ty[4] = { 2, 1, 3, 3 };
	*a = *b = *c = *d = 0;
	if ((leaf == 4) == !!cfgl("amd", 0) || sub > 3 || (leaf != 4 && leaf != 0x8000001du)) return;
	long s = sz[lv[sub] - 1] & ~511L; if (!s) { if (sub < 3) *a = 2 | 7 << 5; return; }
	*a = (unsigned)(ty[sub] | lv[sub] << 5); *b = 63u | 7u << 22; *c = (unsigned)(s / 512 - 1);
}
void get_random_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)rng_next(&xrng); }

void ks_ledger_check(const char *when)
{
	if (ks_misc) viol("left-over", "the character device is still registered %s", when);
	if (ks_hw) viol("left-over", "the hardware RNG is still registered %s", when);
	if (ks_alg) viol("left-over", "the crypto algorithm is still registered %s", when);
	for (int i = 0; i < npe; i++) if (pe[i].live) viol("left-over", "proc entry %s is left %s", pe[i].name, when);
	for (int i = 0; i < nde; i++) if (de[i].live) viol("left-over", "debugfs entry %s is left %s", de[i].name, when);
	if (ks_works_pending()) viol("left-over", "a periodic self test is still queued or running %s", when);
	for (int i = 0; i < nkg; i++) if (kg[i].live) viol("left-over", "a generator instance is never released (%s)", when);
	for (int i = 0; i < nka; i++) if (ka[i].live) viol("left-over", "memory (%zu bytes, allocated in operation %d) is never released (%s)", ka[i].n, ka[i].op, when);
}
