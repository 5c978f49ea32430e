/* The callers of the module: system calls, the crypto and hwrng cores, module load and unload - and what each may see. */
#include "ksim.h"
#include "jitterentropy.h"
#include "jitterentropy_uapi.h"
#include "json.h"

extern int (*ks_mod_init)(void); extern void (*ks_mod_exit)(void);
void *ks_wq_thread(void *);
static int owner_ctr = 1; static long st_open, st_cum; static int serial = 1, load_done, have_load;
extern int ks_nofault;
static struct { int which; long v, t; } tp[64]; static int ntp;

/* ---- operation records ---- */
void k_op_begin(oprec *o, int id, const char *name, int owner)
{
	free(o->out); memset(o, 0, sizeof *o);
	o->id = id; o->name = name; o->owner = owner; o->t0 = ks_acc; o->inmod = 1; o->gap = 1;
	kc->op = o; kc->sig = 0;
}
static long cls(long r) { return r > 0 ? 1 : r; }
void k_op_end(oprec *o, long ret, int t)
{
	(void)t;
	o->inmod = 0; o->t1 = ks_acc; o->sig_seen = kc->sig; kc->sig = 0;
	if (kc->held) viol("bad-lock", "%s returns with a lock held", o->name);
	if (kc->core) viol("crash", "simulator: core nesting");
	if (o->must_panic && fips_enabled) viol("no-panic", "%s: a permanent failure in FIPS mode does not stop the machine", o->name);
	kc->op = NULL;
	tr("op %d %s -> %ld (gens %ld, thread %d)", o->id, o->name, ret, o->gens, kc->id);
	hist_u64((uint64_t)o->id * 1000003 + (uint64_t)ret); hist_mix(o->out, o->outn);
	uint64_t h = 1469598103934665603ULL; for (const char *c = o->name; *c; c++) h = (h ^ (uint64_t)*c) * 1099511628211ULL;
	h = h * 31 + (uint64_t)cls(ret); h = h * 31 + (uint64_t)(-o->gen_fail_rc); h = h * 2 + (o->blocked != 0); h = h * 2 + (o->try_fail != 0); h = h * 2 + (o->sig_seen != 0); h = h * 2 + (o->alloc_fail != 0); h = h * 2 + (o->copy_fault != 0);
	state_seen(h);
	char b[32]; snprintf(b, sizeof b, "op.%s", o->name); for (char *c = b; *c; c++) if (*c == ' ') *c = '_'; stat_add(b, 1);
}
static oprec *onew(void) { oprec *o = calloc(1, sizeof *o); return o; }
static void ofree(oprec *o) { free(o->out); free(o->ub); free(o->ub2); free(o); }
static void ub_new(oprec *o, size_t n) { o->ub = malloc(n + 16); memset(o->ub, 0xa5, n + 16); o->ubn = o->ubmap = n; }
static void ub_map(oprec *o, size_t n, size_t map) { ub_new(o, map); o->ubn = n; }
static void alive(const char *what) { if (ks_mod_state == 4 || ks_mod_state == 5) viol("module-gone", "%s reaches the module after it was %s", what, ks_mod_state == 4 ? "unloaded" : "refused"); }
static int wait_dev_c(kco *c) { (void)c; return ks_misc || load_done || !have_load; }
static int wait_hw_c(kco *c) { (void)c; return ks_hw || load_done || !have_load; }
static int wait_alg_c(kco *c) { (void)c; return ks_alg || load_done || !have_load; }
static int wait_load_c(kco *c) { (void)c; return load_done || !have_load; }

/* ---- loop counts, testing parameters: what was in effect during a call ---- */
static struct { int file; u64 v; long t0, t1; int ok; } lp[64]; static int nlp;
static int loop_ok(int file, u64 v, oprec *o)
{
	int n = nlp < 64 ? nlp : 64, base = v == 0;
	for (int j = 0; j < n; j++) if (lp[j].file == file && lp[j].ok == 1 && lp[j].t1 < o->t0) base = 0;
	if (base) return 1;
	for (int i = 0; i < n; i++) {
		if (lp[i].file != file || lp[i].v != v || lp[i].ok == 0 || lp[i].t0 > o->t1) continue;
		int sup = 0;
		for (int j = 0; j < n; j++) if (j != i && lp[j].file == file && lp[j].ok == 1 && lp[j].t0 > lp[i].t1 && lp[j].t1 < o->t0) sup = 1;
		if (!sup) return 1;
	}
	return nlp > 64;
}
static int par_ok(int w, long v, long t0)
{
	long cur = cfgl(w ? "p_testing_flags" : "p_testing_osr", 0);
	int ok = 0;
	for (int i = 0; i < ntp; i++) if (tp[i].which == w) { if (tp[i].t >= t0 && cur == v) ok = 1; cur = tp[i].v; }
	return ok || cur == v;
}
int kj_params_ok(unsigned osr, unsigned flags) { return par_ok(0, (long)osr, kc->op->t0) && par_ok(1, (long)flags, kc->op->t0); }

/* ---- files ---- */
static void do_release(int id, kfile *k)
{
	oprec *o = onew();
	alive("close");
	k_op_begin(o, id, k->kind == 1 ? "close" : "raw close", k->id);
	int r = k->f.f_op->release ? k->f.f_op->release(&k->ino, &k->f) : 0;
	k_op_end(o, r, 0);
	if (r) viol("errno", "close fails (%d)", r);
	if (kg_of_owner(k->id)) viol("left-over", "close leaves the generator of the file behind");
	if (k->kind == 1) { char b[80]; snprintf(b, sizeof b, "jitterentropy/instances/%s", k->uuid); if (ks_proc_find(b)) viol("left-over", "close leaves the status file of the instance behind"); st_open--; }
	if (k->module_ref) module_put(THIS_MODULE);
	k->used = 0;
	ofree(o);
}
static int f_get(kfile *k) { if (k->used != 1 || k->closing) return 0; k->refs++; return 1; }
static void f_put(int id, kfile *k) { if (--k->refs == 0 && k->closing) do_release(id, k); }
static void op_open(op_t *p)
{
	kfile *k = &kf[p->a[0] % NFILE];
	if (k->used) return;
	k->used = 2;
	k_wait(wait_dev_c, NULL);
	if (!ks_misc) { k->used = 0; return; }
	const struct file_operations *fo = ks_misc->fops;
	if (ks_mod_state == 4 || ks_mod_state == 5) { k->used = 0; return; }
	k->module_ref = 0;
	if (fo->owner) { if (!try_module_get(fo->owner)) { k->used = 0; return; } k->module_ref = 1; }
	memset(&k->f, 0, sizeof k->f); k->f.f_op = fo; k->f.f_flags = p->a[1] & 1 ? O_NONBLOCK : 0; k->f.private_data = ks_misc;
	k->kind = 1; k->refs = k->closing = 0; k->id = owner_ctr++; k->uuid[0] = 0;
	oprec *o = onew(); int live = ks_mod_state == 2;
	k_op_begin(o, p->id, "open", k->id);
	int r = fo->open ? fo->open(&k->ino, &k->f) : 0;
	long pf = o->points; (void)pf;
	k_op_end(o, r, 0);
	kgen_t *g = kg_of_owner(k->id);
	if (r == 0) {
		if (!g) viol("open", "open succeeds without a generator of its own");
		st_open++; st_cum++;
		snprintf(k->uuid, sizeof k->uuid, "%s", g->uuid);
		char b[80]; snprintf(b, sizeof b, "jitterentropy/instances/%s", g->uuid);
		int there = ks_proc_find(b) != NULL;
		if (!there && live && !o->uuid_fail && !o->full && ks_proc_find("jitterentropy/instances")) viol("proc-missing", "open does not publish the instance under its identifier");
		k->used = 1;
	} else {
		if (g) viol("left-over", "a failed open leaves a generator behind");
		if (!(r == -ENOMEM && (o->alloc_fail || o->galloc_fail)) && !(r == -ERESTARTSYS && o->sig_seen)) viol("errno", "open fails with %d although nothing it needs failed", r);
		if (k->module_ref) module_put(THIS_MODULE);
		k->used = 0;
	}
	ofree(o);
}
static void op_close(op_t *p)
{
	kfile *k = &kf[p->a[0] % NFILE];
	if (k->used != 1 || k->closing) return;
	k->closing = 1;
	if (!k->refs) do_release(p->id, k);
}
/* is `r` an error the events of this call explain? */
static int err_ok(oprec *o, long r, int nb)
{
	if (r == -ERESTARTSYS || r == -EINTR) return o->sig_seen;
	if (r == -ENOMEM && o->alloc_fail) return 1;
	if (r == -EAGAIN && nb && o->try_fail) return 1;
	if (r == -EFAULT && (o->copy_fault || o->from_fault)) return 1;
	if (o->gen_fail_rc && r == k_map(o->gen_fail_rc)) return 1;
	return 0;
}
static void op_read(op_t *p)
{
	kfile *k = &kf[p->a[0] % NFILE]; size_t n = (size_t)p->a[1];
	if (!f_get(k)) return;
	if (k->kind != 1) { f_put(p->id, k); return; }
	oprec *o = onew(); loff_t pos = k->f.f_pos; int nb0 = !!(k->f.f_flags & O_NONBLOCK); long tog = k->nread; (void)tog;
	u64 nbgen = k->loop;
	alive("read");
	size_t mp = p->a[2] > 0 && (size_t)p->a[2] < n ? (size_t)p->a[2] : n < 1 << 22 ? n : 1 << 22;
	k_op_begin(o, p->id, "read", k->id); ub_map(o, n, mp);
	long r = k->f.f_op->read ? k->f.f_op->read(&k->f, (char *)o->ub, n, &pos) : -EINVAL;
	k_op_end(o, r, 0);
	int nbmix = k->loop != nbgen, nb = nb0 || nbmix;
	hist_mix(o->ub, mp);
	if (r > (long)n) viol("read-count", "a read of %zu bytes reports %ld", n, r);
	if (r == 0 && n) viol("read-count", "a read of %zu bytes reports end of file", n);
	if (r > 0) {
		if ((size_t)r > o->outn || memcmp(o->ub, o->out, (size_t)r)) viol("read-data", "the %ld bytes a read returns are not the bytes generated for it, in order", r);
		if (r < o->copied_full || r > o->copied_all) viol("read-count", "a read reports %ld bytes but handed over %ld", r, o->copied_full);
		if ((size_t)r < n && !o->sig_seen && !o->gen_fail_rc && !o->copy_fault && !(nb && (o->try_fail || r <= 256)) && !o->alloc_fail) viol("read-short", "a blocking read of %zu bytes returns %ld although nothing failed", n, r);
	} else if (r < 0) {
		if (o->copied_full) viol("read-lost", "a read fails with %ld after %ld bytes were handed over", r, o->copied_full);
		if (!err_ok(o, r, nb)) viol("errno", "a read fails with %ld, which nothing that happened explains (generator %ld)", r, o->gen_fail_rc);
	}
	if (!o->copy_fault) for (size_t i = r > 0 ? (size_t)r : 0; i < mp; i++) if (o->ub[i] != 0xa5) viol("read-data", "a read changes the caller's memory beyond the bytes it reports");
	if (nb0 && !nbmix) {
		if (o->blocked) viol("nonblock", "a non-blocking read sleeps on the instance");
		if (r > 256) viol("nonblock", "a non-blocking read delivers %ld bytes", r);
	}
	if (o->gens_after_sig > 1) viol("uninterruptible", "a read keeps generating after a signal is pending (%ld blocks)", o->gens_after_sig);
	if (o->gens_after_fail) viol("read-retry", "a read goes on generating after the generator failed (%ld)", o->gen_fail_rc);
	if (o->hold_max > 1024) viol("monopoly", "a read keeps the instance for %ld bytes at a time", o->hold_max);
	ofree(o);
	f_put(p->id, k);
}
static void op_nb(op_t *p) { kfile *k = &kf[p->a[0] % NFILE]; if (!f_get(k)) return; if (k->kind == 1) { k->f.f_flags = p->a[1] ? O_NONBLOCK : 0; k->loop++; } f_put(p->id, k); }
static void op_topen(op_t *p)
{
	kfile *k = &kf[p->a[0] % NFILE];
	if (k->used) return;
	k->used = 2;
	k_wait(wait_load_c, NULL);
	struct dentry *d = ks_mod_state == 2 ? ks_dbg_find("jent_raw_hires") : NULL;
	if (!d) { k->used = 0; return; }
	const struct file_operations *fo = d->fops; k->module_ref = 0;
	if (fo->owner) { if (!try_module_get(fo->owner)) { k->used = 0; return; } k->module_ref = 1; }
	memset(&k->f, 0, sizeof k->f); k->f.f_op = fo; k->kind = 2; k->refs = k->closing = 0; k->id = owner_ctr++; k->uuid[0] = 0;
	oprec *o = onew(); int ld = ks_lockdown;
	d->inuse++;
	k_op_begin(o, p->id, "raw open", k->id);
	int r = fo->open(&k->ino, &k->f);
	k_op_end(o, r, 0);
	d->inuse--;
	kgen_t *g = kg_of_owner(k->id);
	if (ld && r != -EPERM) viol("raw-open", "the raw noise file can be opened on a locked-down kernel (%d)", r);
	if (r == 0) { if (!g) viol("open", "raw open succeeds without a generator"); k->used = 1; }
	else {
		if (g) viol("left-over", "a failed raw open leaves a generator behind");
		if (!(r == -EPERM && (ld || ks_lockdown)) && !(r == -ENOMEM && (o->alloc_fail || o->galloc_fail)) && !((r == -ERESTARTSYS || r == -EINTR) && o->sig_seen)) viol("errno", "raw open fails with %d although nothing it needs failed", r);
		if (k->module_ref) module_put(THIS_MODULE);
		k->used = 0;
	}
	ofree(o);
}
static void op_tread(op_t *p)
{
	kfile *k = &kf[p->a[0] % NFILE]; size_t n = (size_t)p->a[1];
	if (!f_get(k)) return;
	struct dentry *d = k->kind == 2 ? ks_dbg_find("jent_raw_hires") : NULL;
	if (!d) { f_put(p->id, k); return; }
	oprec *o = onew(); loff_t pos = 1000;
	d->inuse++;
	k_op_begin(o, p->id, "raw read", k->id); ub_new(o, n);
	long r = k->f.f_op->read(&k->f, (char *)o->ub, n, &pos);
	k_op_end(o, r, 0);
	d->inuse--;
	hist_mix(o->ub, n);
	if (r > (long)n) viol("read-count", "a raw read of %zu bytes reports %ld", n, r);
	if (n % 8 && r != -EINVAL) viol("raw-size", "a raw read of %zu bytes, not a whole number of samples, gives %ld", n, r);
	if (n % 8 == 0 && r == -EINVAL) viol("raw-size", "a raw read of %zu bytes is refused", n);
	if (n % 8 == 0) {
		if (r == 0 && n) viol("read-count", "a raw read of %zu bytes reports end of file", n);
		if (r > 0) {
			if ((size_t)r > o->outn || memcmp(o->ub, o->out, (size_t)r)) viol("raw-data", "a raw read does not return the measured samples in order, each measured from a fresh time stamp");
			if (r < o->copied_full || r > o->copied_all) viol("read-count", "a raw read reports %ld bytes but handed over %ld", r, o->copied_all);
			if ((size_t)r < n && !o->sig_seen && !o->copy_fault) viol("read-short", "a raw read of %zu bytes returns %ld although nothing failed", n, r);
			if (o->loop_mixed) viol("raw-loop", "the loop count changes in the middle of a raw read");
			if (o->loop_n && !loop_ok(k->id, (u64)o->loop_seen, o)) viol("raw-loop", "a raw read measures with loop count %ld, which is not the one set", o->loop_seen);
		} else if (r < 0) {
			if (o->copied_all) viol("read-lost", "a raw read fails with %ld after %ld bytes were handed over", r, o->copied_all);
			if (!err_ok(o, r, 0)) viol("errno", "a raw read fails with %ld although nothing failed", r);
		}
		if (!o->copy_fault) for (size_t i = r > 0 ? (size_t)r : 0; i < n; i++) if (o->ub[i] != 0xa5) viol("raw-data", "a raw read changes memory beyond what it reports");
	}
	if (pos != 1000 + (r > 0 ? r : 0)) viol("raw-pos", "a raw read of %ld bytes moves the position by %ld", r, (long)pos - 1000);
	ofree(o);
	f_put(p->id, k);
}

static int m_health(const kstate *s, const void *v) { return s->health == *(const u32 *)v; }
static int m_reinit(const kstate *s, const void *v) { return s->reinit == *(const u32 *)v; }
static int m_out(const kstate *s, const void *v) { const struct jent_output_ioctl *q = v; return s->inv == q->invocations && s->bytes == q->bytes; }
unsigned ks_ec_osr(struct rand_data *); unsigned ks_ec_flags(struct rand_data *);
static void op_ioc(op_t *p)
{
	static const unsigned cmds[] = { JENT_IOCSTATUS, JENT_IOCUUID, JENT_IOCVERSION, JENT_IOCOSR, JENT_IOCFLAGS, JENT_IOCHEALTH, JENT_IOCOUTPUT, JENT_IOCREINIT, JENT_IOCSELFTEST, JENT_IOCLOOPCNT };
	kfile *k = &kf[p->a[0] % NFILE]; int ci = (int)p->a[1], lc = (int)p->a[2]; struct dentry *d = NULL;
	if (!f_get(k)) return;
	if (k->kind == 2 && !(d = ks_dbg_find("jent_raw_hires"))) { f_put(p->id, k); return; }
	unsigned cmd = ci < 10 ? cmds[ci] : ci == 10 ? _IO('J', 0x20) : ci == 11 ? _IOR('J', 0x03, __u32) : _IOR('K', 0x04, __u32);
	oprec *o = onew(); kgen_t *g = kg_of_owner(k->id);
	int failed0 = g && g->self_failed; struct jent_status_ioctl st; static const unsigned lens[] = { 0, 1, 64, 4096, 0, 1 << 20, 300, 1000 };
	unsigned slen = 0; int li = -1; u64 lv = 0;
	static const u64 lvs[] = { 0, 1, 7, 100, 0xffffffffULL, 0x100000000ULL, ~0ULL, 0x7fffffffffffffffULL };
	alive("ioctl");
	if (ci == 9) { lv = lvs[lc & 7]; li = nlp++ & 63; lp[li].file = k->id; lp[li].v = lv; lp[li].t0 = ks_acc; lp[li].t1 = 1L << 60; lp[li].ok = 2; }
	k_op_begin(o, p->id, ci == 0 ? "status ioctl" : ci == 8 ? "self test ioctl" : ci == 9 ? "loop ioctl" : ci >= 10 ? "bad ioctl" : "field ioctl", k->id);
	if (p->a[3] & 1) o->full = -1;
	if (ci == 0) {
		slen = (lc & 7) == 4 ? (unsigned)(k->nread > 0 ? k->nread + p->a[4] : 100) : lens[lc & 7];
		ub_new(o, sizeof st); memset(&st, 0, sizeof st);
		o->ub2n = slen > 65536 ? 65536 : slen; o->ub2 = malloc(o->ub2n + 16); memset(o->ub2, 0xa5, o->ub2n + 16);
		st.buf = (uintptr_t)o->ub2; st.length = slen; memcpy(o->ub, &st, sizeof st);
	} else if (ci == 9) { ub_new(o, 8); memcpy(o->ub, &lv, 8); }
	else ub_new(o, ci == 1 ? sizeof(struct jent_uuid_ioctl) : ci == 6 ? sizeof(struct jent_output_ioctl) : ci == 8 || ci >= 10 ? 0 : 4);
	long (*fn)(struct file *, unsigned, unsigned long) = p->a[3] & 2 && k->f.f_op->compat_ioctl ? k->f.f_op->compat_ioctl : k->f.f_op->unlocked_ioctl;
	if (d) d->inuse++;
	long r = fn ? fn(&k->f, cmd, ci == 8 ? 0 : (unsigned long)o->ub) : -ENOTTY;
	k_op_end(o, r, 0);
	if (d) d->inuse--;
	if (p->a[3] & 1) o->full = 0;
	if (ci) hist_mix(o->ub, o->ubn); else hist_u64(((struct jent_status_ioctl *)o->ub)->length);
	if (o->ub2) hist_mix(o->ub2, o->ub2n);
	if (ci >= 10 || (ci == 9 && k->kind == 1)) { if (r != -ENOTTY) viol("ioctl", "an unknown request (0x%x) is answered with %ld", cmd, r); }
	else if (r == -ERESTARTSYS || r == -EINTR) { if (!o->sig_seen) viol("errno", "%s is interrupted (%ld) without a signal", o->name, r); }
	else if (ci == 0) {
		memcpy(&st, o->ub, sizeof st);
		size_t need = strlen(o->status) + 1;
		if (r == -ENOMEM) { if (!o->alloc_fail) viol("errno", "status ioctl: out of memory without a failed allocation"); }
		else if (r == -EIO) { if (!o->status_rc) viol("errno", "status ioctl: -EIO although the status was produced"); }
		else if (r == -EFAULT) { if (!o->copy_fault && !o->from_fault) viol("errno", "status ioctl: -EFAULT without a fault"); }
		else if (o->copy_fault || o->from_fault || o->status_rc || o->alloc_fail) viol("ioctl", "status ioctl: %ld although it could not deliver", r);
		else if (r == -EOVERFLOW) {
			if (slen >= need) viol("ioctl", "status ioctl: a buffer of %u bytes is refused for %zu", slen, need);
			if (st.length != need) viol("ioctl", "status ioctl: the required size is reported as %u, not %zu", st.length, need);
			for (size_t i = 0; i < o->ub2n; i++) if (o->ub2[i] != 0xa5) viol("ioctl", "status ioctl: the buffer is written although it is too small");
			k->nread = (long)need;
		} else if (r == 0) {
			if (slen < need) viol("ioctl", "status ioctl: %zu bytes delivered into a buffer of %u", need, slen);
			if (st.length != need || memcmp(o->ub2, o->status, need)) viol("ioctl", "status ioctl: the delivered document or its length is not the instance's status");
			for (size_t i = need; i < o->ub2n; i++) if (o->ub2[i] != 0xa5) viol("ioctl", "status ioctl: memory beyond the document is written");
			k->nread = (long)need;
		} else viol("errno", "status ioctl returns %ld", r);
	} else if (ci == 8) {
		if (p->a[3] & 1) { if (r != -EPERM || o->self_n) viol("selftest-cap", "an unprivileged self test request gives %ld (%ld runs)", r, o->self_n); }
		else {
			if (r != 0 && r != -EFAULT) viol("errno", "self test ioctl returns %ld", r);
			if (o->self_n && o->self_bound != (k->kind == 1)) viol("wrong-instance", "self test ioctl: the run is bound to the wrong object");
			if (o->self_n > 1) viol("ioctl", "one self test request runs it %ld times", o->self_n);
			if (r == 0 && (o->self_n != 1 || o->self_rc)) viol("self-verdict", "a self test request reports success without a passed run");
			if (r == -EFAULT && o->self_n && !o->self_rc) viol("self-verdict", "a passed self test is reported as failed");
			if (r == -EFAULT && !o->self_n && !(g && g->self_failed)) viol("self-verdict", "a self test request is refused although no run failed");
			if (failed0 && k->kind == 1 && (r != -EFAULT || o->self_n)) viol("self-verdict", "a self test request after a failed run gives %ld (%ld runs)", r, o->self_n);
		}
	} else if (ci == 9) {
		lp[li].t1 = o->t1; lp[li].ok = r == 0;
		if (o->from_fault) { if (r != -EFAULT) viol("ioctl", "loop ioctl: %ld although its argument cannot be read", r); }
		else if (lv > 0xffffffffULL) { if (r != -EINVAL) viol("raw-loop", "a loop count above the limit gives %ld", r); }
		else if (r != 0) viol("errno", "loop ioctl returns %ld", r);
	} else if (r == -EFAULT) { if (!o->copy_fault) viol("errno", "field ioctl: -EFAULT without a fault"); }
	else if (o->copy_fault) viol("ioctl", "field ioctl: %ld although it could not deliver", r);
	else if (ci == 1) {
		if (k->kind == 2) { if (r != -ENODATA && !(r == -EIO && o->uuid_fail)) viol("ioctl", "the identifier of a raw instance gives %ld", r); }
		else if (r == -EIO) { if (!o->uuid_fail) viol("errno", "identifier ioctl: -EIO"); }
		else if (r) viol("errno", "identifier ioctl returns %ld", r);
		else if (g && strcmp((char *)o->ub, g->uuid)) viol("ioctl", "identifier ioctl returns another identifier");
	} else if (r) viol("errno", "field ioctl %d returns %ld", ci, r);
	else if (g) {
		u32 v; memcpy(&v, o->ub, o->ubn < 4 ? 0 : 4); struct jent_output_ioctl q; if (ci == 6) memcpy(&q, o->ub, sizeof q);
		if (ci == 2 && v != jent_version()) viol("ioctl", "version ioctl returns %u, not %u", v, jent_version());
		if (ci == 3 && !ks_real && v != ks_ec_osr(g->ec)) viol("ioctl", "oversampling ioctl returns %u, not %u", v, ks_ec_osr(g->ec));
		if (ci == 4 && !ks_real && v != ks_ec_flags(g->ec)) viol("ioctl", "flags ioctl returns 0x%x, not 0x%x", v, ks_ec_flags(g->ec));
		if (ci == 5 && !kg_state_ok(g, o, m_health, &v)) viol("ioctl", "health ioctl returns 0x%x, which the instance never had", v);
		if (ci == 7 && !kg_state_ok(g, o, m_reinit, &v)) viol("ioctl", "reinitialisation ioctl returns %u, which the instance never had", v);
		if (ci == 6 && !kg_state_ok(g, o, m_out, &q)) viol("ioctl", "output ioctl returns %llu calls %llu bytes, which the instance never had together", (unsigned long long)q.invocations, (unsigned long long)q.bytes);
	}
	ofree(o);
	f_put(p->id, k);
}

/* ---- proc ---- */
static long line_num(const char *b, const char *key) { char k[64]; snprintf(k, sizeof k, "\"%s\"", key); const char *q = strstr(b, k); if (!q) return -1; q = strchr(q, ':'); return q ? strtol(q + 1, NULL, 10) : -1; }
static void field_is(const char *b, const char *key, const char *want)
{
	const char *q = strstr(b, key);
	while (q && q != b && q[-1] != '\n') q = strstr(q + 1, key);
	if (!q) viol("proc", "config/flags has no line for %s", key);
	q += strlen(key); while (*q == ' ' || *q == '\t') q++;
	size_t n = strcspn(q, "\n"); if (n != strlen(want) || strncmp(q, want, n)) viol("proc", "config/flags reports %s %.*s, not %s", key, (int)n, q, want);
}
static unsigned eff_osr(void) { unsigned o = (unsigned)cfgl("p_osr", 0); return o < 3 ? 3 : o; }
static unsigned eff_int(void) { long v = cfgl("p_selftest_interval", 0); return v > 2592000 ? 2592000 : (unsigned)v; }
static void proc_text(int pi, const char *b)
{
	char w[64]; unsigned fl = ks_eff_flags();
	switch (pi) {
	case 0: {
		json_t j; if (json_parse(b, &j)) viol("proc", "the statistics are not valid JSON"); }
		if (line_num(b, "intervalSeconds") != (long)eff_int()) viol("proc", "statistics report a self test interval of %ld, not %u", line_num(b, "intervalSeconds"), eff_int());
		if (serial) {
			if (line_num(b, "openInstances") != st_open) viol("open-count", "statistics report %ld open instances, not %ld", line_num(b, "openInstances"), st_open);
			if (line_num(b, "cumulativeOpens") != st_cum) viol("proc", "statistics report %ld opens, not %ld", line_num(b, "cumulativeOpens"), st_cum);
			if (line_num(b, "runs") != ks_self_done) viol("proc", "statistics report %ld self test runs, not %ld", line_num(b, "runs"), ks_self_done);
			if (line_num(b, "failures") != ks_self_fail_done) viol("proc", "statistics report %ld failed self tests, not %ld", line_num(b, "failures"), ks_self_fail_done);
		} else if (line_num(b, "failures") > ks_self_fail_started || line_num(b, "runs") > ks_self_started || line_num(b, "openInstances") < 0) viol("proc", "statistics report more than happened");
		return;
	case 1: { unsigned v = jent_version(); snprintf(w, sizeof w, "%u.%u.%u\n", v / 1000000, v / 10000 % 100, v / 100 % 100); break; }
	case 2: {
		static const struct { unsigned bit; const char *n; } fb[] = { { JENT_DISABLE_MEMORY_ACCESS, "JENT_DISABLE_MEMORY_ACCESS:" }, { JENT_FORCE_INTERNAL_TIMER, "JENT_FORCE_INTERNAL_TIMER:" }, { JENT_DISABLE_INTERNAL_TIMER, "JENT_DISABLE_INTERNAL_TIMER:" }, { JENT_FORCE_FIPS, "JENT_FORCE_FIPS:" }, { JENT_NTG1, "JENT_NTG1:" }, { JENT_CACHE_ALL, "JENT_CACHE_ALL:" } };
		for (size_t i = 0; i < ARRAY_SIZE(fb); i++) field_is(b, fb[i].n, fl & fb[i].bit ? "on" : "off");
		snprintf(w, sizeof w, "0x%08x", fl); field_is(b, "flags:", w);
		unsigned ms = JENT_FLAGS_TO_MAX_MEMSIZE(fl), hl = JENT_FLAGS_TO_HASHLOOP(fl);
		if (!ms) snprintf(w, sizeof w, "auto (derived from cache size)"); else if (ms <= 10) snprintf(w, sizeof w, "%u kB", 1u << (ms - 1)); else if (ms <= 20) snprintf(w, sizeof w, "%u MB", 1u << (ms - 11)); else w[0] = 0;
		if (w[0]) field_is(b, "max memory size:", w);
		if (!hl) snprintf(w, sizeof w, "default"); else snprintf(w, sizeof w, "%u", 1u << hl);
		field_is(b, "hash loop count:", w);
		return; }
	case 3: snprintf(w, sizeof w, "0x%08x\n", fl); break;
	case 4: snprintf(w, sizeof w, "%u\n", eff_osr()); break;
	case 5: snprintf(w, sizeof w, "%d\n", !!(fl & JENT_NTG1)); break;
	case 6: snprintf(w, sizeof w, "%d\n", fips_enabled || (fl & (JENT_NTG1 | JENT_FORCE_FIPS))); break;
	default: snprintf(w, sizeof w, "1\n");
	}
	if (strcmp(b, w)) viol("proc", "a proc file (%d) reads %s instead of %s", pi, b, w);
}
static const char *ppath[] = { "statistics", "version", "config/flags", "config/flags_raw", "config/osr", "config/ntg1", "config/fips", "interfaces/kcapi", "interfaces/hwrng", "interfaces/chardev", "interfaces/testing", "hwrng_status" };
static void do_proc(op_t *p, struct proc_dir_entry *e, int owner, int pi)
{
	if (!e || e->removing || !e->show) return;
	e->inuse++;
	oprec *o = onew(); struct seq_file m = { calloc(1, 32768), 32768, 0, e->data };
	alive("a proc file");
	if (serial && pi == 0) k_quiesce();
	k_op_begin(o, p->id, pi < 0 ? "instance status" : pi == 11 ? "hwrng status" : "proc", owner);
	int r = e->show(&m, NULL);
	k_op_end(o, r, 0);
	e->inuse--;
	hist_mix(m.buf, m.count);
	if (pi < 0 || pi == 11) {
		if (r == 0) { if (o->status_n < 1 || o->status_rc || strcmp(m.buf, o->status)) viol("proc", "%s does not show the document of the instance", o->name); }
		else if (r == -ENOMEM) { if (!o->alloc_fail) viol("errno", "%s: out of memory without a failed allocation", o->name); }
		else if (r == -EIO) { if (!o->status_rc) viol("errno", "%s: -EIO although the status was produced", o->name); }
		else if (r == -ERESTARTSYS || r == -EINTR) { if (!o->sig_seen) viol("errno", "%s is interrupted without a signal", o->name); }
		else viol("errno", "%s returns %d", o->name, r);
	} else if (r) viol("errno", "a proc file fails with %d", r);
	else proc_text(pi, m.buf);
	free(m.buf); ofree(o);
}
static void op_proc(op_t *p)
{
	int pi = (int)p->a[0] % 12; char b[80]; snprintf(b, sizeof b, "jitterentropy/%s", ppath[pi]);
	struct proc_dir_entry *e = ks_proc_find(b);
	if (!e && serial && ks_mod_state == 2 && pi != 11) viol("proc-missing", "/proc/%s is missing", b);
	do_proc(p, e, pi == 11 ? OWN_HW : -1, pi);
}
static void op_procinst(op_t *p)
{
	if (p->a[0] >= 100) {	/* whatever is published at the moment, also by an open still in progress */
		struct proc_dir_entry *e = ks_proc_nth("jitterentropy/instances", (int)p->a[0] - 100); int ow = -1;
		if (!e) return;
		for (int i = 0; i < nkg; i++) if (kg[i].live && !strcmp(kg[i].uuid, e->name)) ow = kg[i].owner;
		do_proc(p, e, ow, -1);
		return;
	}
	kfile *k = &kf[p->a[0] % NFILE]; char b[80];
	if (!k->used || k->kind != 1 || !k->uuid[0]) return;
	snprintf(b, sizeof b, "jitterentropy/instances/%s", k->uuid);
	do_proc(p, ks_proc_find(b), k->id, -1);
}

/* ---- hwrng ---- */
static void op_hw(op_t *p)
{
	size_t n = (size_t)p->a[0]; bool wait = p->a[1];
	k_wait(wait_hw_c, NULL);
	struct hwrng *h = ks_hw;
	if (!h) return;
	ks_hw_users++;
	oprec *o = onew(); unsigned char *b = malloc(n + 64); memset(b, 0xa5, n + 64);
	alive("hwrng");
	k_op_begin(o, p->id, "hwrng read", OWN_HW);
	int r = h->read(h, b, n, wait);
	k_op_end(o, r, 0);
	ks_hw_users--;
	if (r > (int)n) viol("read-count", "the hardware RNG reports %d of %zu bytes", r, n);
	for (size_t i = n; i < n + 64; i++) if (b[i] != 0xa5) viol("overflow", "the hardware RNG writes beyond the buffer");
	if (r > 0) { if ((size_t)r > o->outn || memcmp(b, o->out, (size_t)r)) viol("read-data", "the hardware RNG reports %d bytes that were not generated for it", r); hist_mix(b, (size_t)r); if (o->gen_fail_rc) viol("front-fail", "the hardware RNG reports data although the generator failed (%ld)", o->gen_fail_rc); }
	else if (r == 0) { if (n && (wait || !o->try_fail)) viol("front-fail", "the hardware RNG reports no data although it was not busy"); }
	else if (!err_ok(o, r, 0)) viol("errno", "the hardware RNG fails with %d, which nothing explains (generator %ld)", r, o->gen_fail_rc);
	if (!wait && o->blocked) viol("nonblock", "a hardware RNG read that must not wait sleeps");
	free(b); ofree(o);
}

/* ---- crypto API ---- */
static void t_release(int id, ktfm *t)
{
	oprec *o = onew();
	alive("tfm exit");
	k_op_begin(o, id, "tfm exit", t->id);
	if (t->tfm.base.ctx && t->closing != 2) { void (*ex)(struct crypto_tfm *) = ks_alg ? ks_alg->base.cra_exit : NULL; if (ex) ex(&t->tfm.base); }
	k_op_end(o, 0, 0);
	if (kg_of_owner(t->id)) viol("left-over", "the end of a crypto instance leaves its generator behind");
	ks_nofault++; ks_free_sensitive(t->tfm.base.ctx, (size_t)-1); ks_nofault--;
	if (ks_alg && ks_alg->base.cra_module) module_put(THIS_MODULE);
	t->used = 0;
	ofree(o);
}
static void op_tinit(op_t *p)
{
	ktfm *t = &ktf[p->a[0] % NTFM];
	if (t->used) return;
	t->used = 2;
	if (cfgl("lf", 0)) k_wait(wait_load_c, NULL); else k_wait(wait_alg_c, NULL);	/* a crypto user cannot be kept out while a load fails: see DESIGN.md */
	struct rng_alg *a = ks_alg;
	if (!a || ks_mod_state > 2 || (a->base.cra_module && !try_module_get(a->base.cra_module))) { t->used = 0; return; }
	t->refs = t->closing = 0; t->id = 2000 + owner_ctr++;
	ks_nofault++; t->tfm.base.ctx = ks_alloc(a->base.cra_ctxsize, GFP_KERNEL, 1); ks_nofault--;
	oprec *o = onew();
	k_op_begin(o, p->id, "tfm init", t->id);
	int r = a->base.cra_init(&t->tfm.base);
	k_op_end(o, r, 0);
	if (r == 0) { if (!kg_of_owner(t->id)) viol("open", "a crypto instance exists without a generator"); t->used = 1; }
	else {
		if (!(r == -ENOMEM && o->galloc_fail)) viol("errno", "a crypto instance is refused with %d although nothing it needs failed", r);
		if (kg_of_owner(t->id)) viol("left-over", "a refused crypto instance leaves a generator behind");
		ks_nofault++; ks_free_sensitive(t->tfm.base.ctx, (size_t)-1); ks_nofault--;
		if (a->base.cra_module) module_put(THIS_MODULE);
		t->used = 0;
	}
	ofree(o);
}
static int t_get(ktfm *t) { if (t->used != 1 || t->closing) return 0; t->refs++; return 1; }
static void t_put(int id, ktfm *t) { if (--t->refs == 0 && t->closing) t_release(id, t); }
static void op_tgen(op_t *p)
{
	ktfm *t = &ktf[p->a[0] % NTFM]; unsigned n = (unsigned)p->a[1];
	if (!t_get(t)) return;
	oprec *o = onew(); unsigned char *b = malloc(n + 64); memset(b, 0xa5, n + 64);
	alive("crypto generate");
	k_op_begin(o, p->id, "tfm generate", t->id);
	unsigned char src[64]; unsigned sl = (unsigned)(p->a[2] > 0 ? p->a[2] % 65 : 0); memset(src, 0x3c, sizeof src);	/* additional input of the caller */
	int r = ks_alg->generate(&t->tfm, sl ? src : NULL, sl, b, n);
	k_op_end(o, r, 0);
	for (size_t i = n; i < n + 64; i++) if (b[i] != 0xa5) viol("overflow", "the crypto API writes beyond the buffer");
	if (r == 0) { if (o->gen_fail_rc || o->outn != n || memcmp(b, o->out, n)) viol("front-fail", "the crypto API reports success without %u generated bytes (generator %ld)", n, o->gen_fail_rc); hist_mix(b, n); }
	else if (r > 0) viol("front-fail", "the crypto API reports %d, not 0, for success", r);
	else if (!(o->gen_fail_rc && r == k_map(o->gen_fail_rc))) viol("errno", "the crypto API fails with %d, which nothing explains (generator %ld)", r, o->gen_fail_rc);
	free(b); ofree(o);
	t_put(p->id, t);
}
static void op_tseed(op_t *p)
{
	ktfm *t = &ktf[p->a[0] % NTFM]; unsigned char b[16] = { 1 };
	if (!t_get(t)) return;
	oprec *o = onew();
	k_op_begin(o, p->id, "tfm seed", t->id);
	int r = ks_alg->seed ? ks_alg->seed(&t->tfm, b, (unsigned)p->a[1] % 17) : 0;
	k_op_end(o, r, 0);
	if (r) viol("errno", "seeding a crypto instance fails with %d", r);
	ofree(o);
	t_put(p->id, t);
}
static void op_tfree(op_t *p) { ktfm *t = &ktf[p->a[0] % NTFM]; if (t->used != 1 || t->closing) return; t->closing = 1; if (!t->refs) t_release(p->id, t); }

/* ---- module ---- */
static void op_load(op_t *p)
{
	static const char *const pn[] = { "osr", "flags", "verbose", "ntg1", "force_fips", "cache_all", "selftest_interval", "hwrng_quality", "testing_osr", "testing_flags" };
	if (ks_mod_state) return;
	for (size_t i = 0; i < ARRAY_SIZE(pn); i++) { char b[32]; snprintf(b, sizeof b, "p_%s", pn[i]); if (cfgl(b, -1) >= 0) ks_param_set(pn[i], cfgl(b, 0)); }
	oprec *o = onew();
	ks_mod_state = 1;
	k_op_begin(o, p->id, "load", OWN_HW);
	int r = ks_mod_init();
	k_op_end(o, r, 0);
	int bad = o->init_rc || o->reg_fail || o->proc_fail_fatal || o->galloc_fail || o->alloc_fail || !o->init_n;
	if (r > 0) viol("load", "module initialisation returns %d", r);
	if (r == 0 && bad) viol("load", "the module loads although a step failed (start-up test %ld, registrations %ld, proc %ld, allocation %ld)", o->init_rc, o->reg_fail, o->proc_fail_fatal, o->galloc_fail + o->alloc_fail);
	if (r != 0 && !bad) viol("load", "the module refuses to load (%d) although every step succeeded", r);
	if (o->init_rc && r != -EFAULT) viol("load", "a failed start-up test is reported as %d", r);
	if (r == 0) {
		ks_mod_state = 2;
		if (!ks_misc || !ks_hw || !ks_alg) viol("load", "the module is loaded without all of its interfaces");
		if (!ks_lockdown && !o->reg_fail && !ks_dbg_find("jent_raw_hires")) viol("load", "the raw noise file is missing");
	} else {
		stat_add("ev.load_refused", 1);
		for (int i = 0; i < NFILE; i++) if (kf[i].used == 1) viol("module-gone", "the device could be opened although the module then refuses to load");
		for (int i = 0; i < nkt; i++) if (kt[i].op && kt[i].op->inmod) viol("module-gone", "%s is still inside the module after it refused to load", kt[i].op->name);
		ks_ledger_check("after a refused load");
		ks_mod_state = 5;
	}
	load_done = 1;
	ofree(o);
}
static void op_unload(op_t *p)
{
	if (ks_mod_state != 2) return;
	if (ks_modref) { stat_add("ev.unload_busy", 1); return; }
	oprec *o = onew();
	ks_mod_state = 3;
	k_op_begin(o, p->id, "unload", OWN_HW);
	ks_mod_exit();
	k_op_end(o, 0, 0);
	for (int i = 0; i < NFILE; i++) if (kf[i].used == 1) viol("module-gone", "the module is unloaded with a file open");
	for (int i = 0; i < NTFM; i++) if (ktf[i].used == 1) viol("module-gone", "the module is unloaded with a crypto instance alive");
	for (int i = 0; i < nkt; i++) if (kt[i].op && kt[i].op->inmod) viol("module-gone", "%s is still inside the module after it was unloaded", kt[i].op->name);
	ks_ledger_check("after unloading");
	ks_mod_state = 4;
	ofree(o);
}
static int par_adv;
static void self_due_check(void)
{
	unsigned iv = eff_int();
	if (!iv || ks_mod_state != 2) return;
	for (int i = 0; i < nkg; i++) if (kg[i].live && !kg[i].raw && !kg[i].self_failed && ks_now - kg[i].last_test > (long)iv) viol("self-missed", "an instance has not been self-tested for %ld seconds (interval %u)", ks_now - kg[i].last_test, iv);
}
static void op_adv(op_t *p)
{
	ks_now += p->a[0]; stat_add("sim_seconds", (uint64_t)p->a[0]); stat_add("fault.clock_advance", 1);
	k_point();
	if (serial) { k_quiesce(); self_due_check(); } else par_adv = 1;
}
static void op_param(op_t *p)
{
	if (ks_mod_state != 2 && ks_mod_state != 1) return;
	int w = p->a[0] != 0;
	ks_param_set(w ? "testing_flags" : "testing_osr", p->a[1]);
	if (ntp < 64) { tp[ntp].which = w; tp[ntp].v = p->a[1]; tp[ntp++].t = ks_acc; }
	k_point();
}
static void exec(op_t *p)
{
	static const struct { const char *n; void (*f)(op_t *); } t[] = { { "open", op_open }, { "close", op_close }, { "read", op_read }, { "nb", op_nb }, { "topen", op_topen }, { "tread", op_tread }, { "ioc", op_ioc }, { "proc", op_proc }, { "procinst", op_procinst }, { "hw", op_hw }, { "tinit", op_tinit }, { "tgen", op_tgen }, { "tseed", op_tseed }, { "tfree", op_tfree }, { "load", op_load }, { "unload", op_unload }, { "adv", op_adv }, { "param", op_param } };
	if (!strcmp(p->name, "lockdown")) { if (!ks_lockdown) { ks_lockdown = 1; stat_add("fault.lockdown", 1); } return; }
	if (!strcmp(p->name, "kat")) { ks_kat = (int)p->a[0]; if (ks_kat) stat_add("fault.kat_broken", 1); return; }
	for (size_t i = 0; i < ARRAY_SIZE(t); i++) if (!strcmp(p->name, t[i].n)) { t[i].f(p); return; }
}
static op_t *phase; static int phase_n;
static void *worker(void *a)
{
	int thr = (int)(long)a;
	for (int i = 0; i < phase_n; i++) if (phase[i].thr == thr) { k_mix(); exec(&phase[i]); }
	return NULL;
}
void sim_run(void)
{
	k_reset(); kj_init();
	fips_enabled = P.fips != 0; ks_lockdown = cfgl("lockdown", 0) != 0;
	k_new(ks_wq_thread, NULL);
	for (int i = 0; i < P.nop; i++) if (!strcmp(P.op[i].name, "load")) have_load = 1;
	for (int i = 0; i < P.nop;) {
		if (P.op[i].thr == 0) { exec(&P.op[i]); i++; continue; }
		phase = &P.op[i]; phase_n = 0;
		while (i < P.nop && P.op[i].thr > 0) { phase_n++; i++; }
		int seen[16] = { 0 };
		for (int j = 0; j < phase_n; j++) { int t = phase[j].thr & 15; if (!seen[t]) { seen[t] = 1; kco *c = k_new(worker, (void *)(long)t); c->worker = 1; } }
		int tests[MAXG], g0 = nkg; for (int g = 0; g < nkg; g++) tests[g] = kg[g].ntest;
		serial = 0; k_run_all(); serial = 1;
		nkt = 2;
		k_quiesce();
		if (par_adv) { par_adv = 0; for (int g = 0; g < nkg; g++) if (g >= g0 || kg[g].ntest != tests[g]) kg[g].last_test = ks_now; }	/* the clock jumped in the middle of calls */
		self_due_check();
	}
	/* everything is given back at the end */
	op_t e; memset(&e, 0, sizeof e); e.id = 950;
	for (int i = 0; i < NFILE; i++) { e.a[0] = i; e.id++; op_close(&e); }
	for (int i = 0; i < NTFM; i++) { e.a[0] = i; e.id++; op_tfree(&e); }
	if (ks_mod_state == 2) { e.id = 970; e.a[0] = 0; op_proc(&e); e.id++; ks_modref = ks_modref < 0 ? 0 : ks_modref; if (ks_modref) viol("left-over", "module references are left"); op_unload(&e); }
	k_quiesce();
	stat_add("accesses", (uint64_t)ks_acc);
}
