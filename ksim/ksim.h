/* Simulated kernel: coroutines, per-operation records, registry of generators. */
#ifndef V_KSIM_H
#define V_KSIM_H
#define KSIM_HOST
#include "sim.h"
#include "ksim_kernel.h"
#define MAXK 16
#define WQ_OP 900		/* operation number of work run by the work queues */
enum { K_FREE, K_READY, K_WAIT, K_DONE };
struct rand_data;

/* what happened during one call into the module, as seen from outside the module */
typedef struct {
	int id, owner;			/* owner: the object (file, tfm, hwrng) the call is on, -1 none */
	const char *name;
	long nalloc, alloc_fail, lock_int, try_fail, blocked, copy_fault, from_fault, points;
	long gens, gens_after_sig, gens_after_fail, gen_fail_rc, hold_bytes, hold_max;
	long status_n, status_rc, uuid_fail;
	long self_n, self_rc; int self_bound, self_ec;
	long galloc_fail, reg_fail, proc_fail_fatal, init_rc, init_n;
	int must_panic, gap, inmod, sig_seen; long t0, t1, tcalls, loop_seen; int loop_n, loop_mixed, nbmix;
	long copied_full, copied_all, msession;
	unsigned char *out; size_t outn, outcap;	/* generator output of this call, in order */
	size_t chunk[4096]; int nchunk;			/* cumulative ends of the blocks */
	char status[8192];				/* last document produced */
	unsigned char *ub; size_t ubn, ubmap;		/* the caller's memory, and how much of it is mapped */
	unsigned char *ub2; size_t ub2n;
	size_t copied; int full;			/* bytes copied to ub so far (contiguous) */
	long msamples;
} oprec;
typedef struct kco {
	int id, state, sig, isig; struct task_struct task;
	void *sp, *stk; void *(*fn)(void *); void *arg;
	int (*cond)(struct kco *); void *carg; long cn;
	oprec *op; int held, core, worker; long stall; int err;
	struct mutex *heldm[8];
} kco;
extern kco kt[MAXK]; extern int nkt; extern kco *kc;
extern long ks_acc, ks_now;		/* memory accesses; simulated seconds */
extern int ks_sched_on, ks_mod_state;	/* 0 not loaded, 1 loading, 2 live, 3 going, 4 gone, 5 load failed */
extern int ks_lockdown, ks_cap, ks_kat;
void k_reset(void); kco *k_new(void *(*fn)(void *), void *arg); void k_run_all(void);
void k_point(void);			/* a place where a signal may arrive and the scheduler may switch */
void k_mix(void);			/* likely switch */
void k_wait(int (*cond)(kco *), void *arg);
int k_fault(const char *kind, long *val);
void k_quiesce(void);
extern int ks_stop;

/* objects visible to the callers */
typedef struct { int used, kind, refs, closing, id, module_ref; struct file f; struct inode ino; unsigned flags_at_open, osr_at_open; char uuid[40]; int proc_ok; u64 loop; long nread; } kfile;	/* kind 1 device, 2 raw noise */
typedef struct { int used, refs, id, closing; struct crypto_rng tfm; } ktfm;
#define NFILE 6
#define NTFM 4
extern kfile kf[NFILE]; extern ktfm ktf[NTFM];
extern long ks_modref;
#define OWN_HW 1000
struct proc_dir_entry { char name[64]; struct proc_dir_entry *parent; int (*show)(struct seq_file *, void *); void *data; int dir, inuse, removing, live; };
struct proc_dir_entry *ks_proc_find(const char *path); struct proc_dir_entry *ks_proc_nth(const char *dir, int n);
struct dentry { char name[64]; struct dentry *parent; const struct file_operations *fops; int dir, inuse, removed, live, unsafe; };
struct dentry *ks_dbg_find(const char *name);
extern struct miscdevice *ks_misc; extern struct hwrng *ks_hw; extern long ks_hw_users; extern struct rng_alg *ks_alg;
void ks_param_set(const char *name, long v); long ks_param_get(const char *name);
void ks_ledger_check(const char *when);
long ks_works_pending(void);
void ks_hist_out(const void *p, size_t n);
int ks_core_depth(void);

/* generators */
#define NHIST 512
typedef struct { long t; u64 inv, bytes; u32 reinit, health; } kstate;
typedef struct { struct rand_data *ec; int live, owner, raw, readers, writer, wthr, ntest, self_failed, failed_rc; long last_test, born; unsigned osr, flags; char uuid[40]; kstate h[NHIST]; int nh, cut; unsigned long salt; } kgen_t;
#define MAXG 512
extern kgen_t kg[MAXG]; extern int nkg;
kgen_t *kg_of_owner(int owner);
extern long ks_self_started, ks_self_done, ks_self_fail_started, ks_self_fail_done;
extern int ks_real;
unsigned ks_eff_flags(void);
void k_op_begin(oprec *o, int id, const char *name, int owner); void k_op_end(oprec *o, long ret, int rettype);
int k_map(long rc);
void kj_init(void); int kj_params_ok(unsigned osr, unsigned flags);
int kg_state_ok(kgen_t *g, oprec *o, int (*match)(const kstate *, const void *), const void *v);
void tparam_note(void);
extern int ks_inited; extern long ks_inside; void kj_touch(void *a, int w);
#endif
