/* Deterministic scheduler: coroutines standing for threads, switched at instrumented memory accesses. */
#ifndef V_SCHED_H
#define V_SCHED_H
#include "sim.h"
#define MAXCO 64
enum { CO_FREE, CO_READY, CO_JOIN, CO_COND, CO_DONE };
typedef struct co {
	int id, state, counting, owner, joined, wait_for, worker;
	void *sp, *stk; void *(*fn)(void *); void *arg; int err, ctx;
	unsigned long vc[MAXCO], facq[MAXCO], frel[MAXCO]; int has_frel;	/* vector clocks: own, seen by relaxed loads, published by the last release fence */
	int w_thr; long w_n;
	long rv_end; int rv;	/* rendezvous */
	long stall;	/* not scheduled before this access count */
	int pinned;	/* counting threads: asked to run on a CPU */
	long iv_w, iv_a, op_w, n_full, n_part, n_triple, n_short, n_st;	/* noise work between time stamps */
	long attrs;	/* thread attributes initialized and not destroyed */
	long yields, slices, st_from, st_len, creates, create_fail;	/* of the current operation */
} co;
extern co *cur;
extern co thr[MAXCO]; extern int nco;
extern int sched_on;			/* preemption possible */
extern long sc_acc, sc_switches, sc_forced;
extern long sc_creates, sc_create_fail, sc_joins;
extern long sc_rv;
void con_work(const void *a);		/* a byte of a large library mapping is written */
void con_counted(co *c);		/* a counting thread has ended */
extern int sc_conc;			/* recording of the schedule */
extern const void *sc_hot_lo, *sc_hot_hi;
co *co_new(void *(*fn)(void *), void *arg);
void co_run_all(int n_workers);		/* run the workers until all finished */
void sched_reset(void);
long sched_live_counting(int owner);
extern int sc_starve, sc_starvep;	/* behaviour of the counting threads */
extern int (*sc_cond)(co *); void sc_wait(void);
void w_ctx_select(int i);
#endif
