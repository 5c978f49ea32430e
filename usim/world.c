/*
 * The simulated operating system: every OS service the library uses is
 * intercepted (ld --wrap) and answered from the plan.
 */
#include "sim.h"
#include "keccak.h"
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>

#define PG 4096UL
int w_in_lib;	/* unused marker for debugging */

/* ---------- fault lookup ---------- */
typedef struct wctx { int op; uint64_t gr_off, ur_off; long alloc; struct { const char *k; long n; } c[24]; int nc; } wctx;
static wctx ctxs[64];
static wctx *W = &ctxs[0];
void w_ctx_select(int i) { W = &ctxs[i & 63]; }
void w_op_begin(int id)
{
	W->op = id; W->alloc = -1; W->nc = 0;
#ifdef V_KHOST
	{ void sim_khost(void); sim_khost(); }
#endif
}
void w_op_end(void) { W->op = -1; }
int w_cur_op(void) { return W->op; }
long w_alloc_ord(void) { return W->alloc; }

static int match(const char *kind, long ord, long *val)
{
	for (int i = 0; i < P.nf; i++) {
		fault_t *f = &P.f[i];
		if (f->op != W->op || strcmp(f->kind, kind)) continue;
		if (ord >= f->ord && ord < f->ord + f->cnt) { if (val) *val = f->val; f->hits++; return 1; }
	}
	return 0;
}
static long count(const char *kind)
{
	for (int i = 0; i < W->nc; i++) if (!strcmp(W->c[i].k, kind)) return ++W->c[i].n;
	if (W->nc < 24) { W->c[W->nc].k = kind; W->c[W->nc].n = 0; W->nc++; }
	return 0;
}
int w_fault(const char *kind, long *val)
{
	int r = match(kind, count(kind), val);
	if (r) { char k[32]; snprintf(k, sizeof k, "fault.%s", kind); stat_add(k, 1); tr("  fault %s val=%ld", kind, val ? *val : 0); }
	return r;
}

/* ---------- memory ---------- */
typedef struct { unsigned char *base; size_t len; int live, lo, hi, none, locked, nodump, op; size_t pay; unsigned char *ptr; int skipped; } map_t;
static map_t maps[8192]; static int nmaps; static long live_maps, live_bytes;
long w_maps_live(void) { return live_maps; }

void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_mprotect(void *, size_t, int);

static map_t *find_map(const void *p)
{
	for (int i = nmaps - 1; i >= 0; i--)
		if (maps[i].live && (unsigned char *)p >= maps[i].base && (unsigned char *)p < maps[i].base + maps[i].len) return &maps[i];
	return NULL;
}
int w_is_lib_mem(const void *p) { return find_map(p) != NULL; }

int w_alloc_fault_model(long ord, unsigned flags)
{
	long v;
#if defined(V_AWSLC) || defined(V_BARE)
	return match("mmap", ord, &v);
#elif defined(V_HEAP)
	if (!P.mlockmode && !match("mlock", ord, &v)) return 0;
	return flags & (1u << 8) ? 1 : match("mmap", ord, &v);
#endif
	if (match("mmap", ord, &v) || match("mprot", ord, &v) || match("mprot2", ord, &v)) return 1;
	if (match("mlock", ord, &v) || (P.mlockmode && (v = P.mlockmode))) {
		if (flags & (1u << 8)) return 1;
		if (v != EPERM && v != ENOMEM && v != EAGAIN) return 1;
	}
	return 0;
}

/* a fresh ledger entry; the oldest released ones make room */
static map_t *map_new(void)
{
	if (nmaps == 8192) {
		int k = 0, drop = 4096;
		for (int i = 0; i < nmaps; i++) { if (!maps[i].live && drop) { drop--; continue; } maps[k++] = maps[i]; }
		nmaps = k;
	}
	if (nmaps == 8192) return NULL;
	memset(&maps[nmaps], 0, sizeof maps[0]);
	return &maps[nmaps++];
}

int __real_madvise(void *, size_t, int);
void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{
	long v = ENOMEM;
	if (fd >= 0) return __real_mmap(a, len, prot, flags, fd, off);
	W->alloc++;
	stat_add("os.mmap", 1);
	if (match("mmap", W->alloc, &v)) { stat_add("fault.mmap", 1); tr("  fault mmap #%ld", W->alloc); errno = v ? (int)v : ENOMEM; return MAP_FAILED; }
	void *p = __real_mmap(a, len, prot, flags, fd, off);
	if (p == MAP_FAILED) return p;
	if (len >= 8UL << 20) __real_madvise(p, len, MADV_HUGEPAGE);	/* cheaper page faults, nothing else */
	map_t *m = map_new();
	if (m) {
		m->base = p; m->len = len; m->live = 1; m->op = W->op;
		m->none = m->lo = m->hi = prot == PROT_NONE;	/* everything inaccessible until the state is opened up */
		live_maps++; live_bytes += (long)len;
	}
#ifdef V_CON
	{ void con_map_hook(unsigned char *, size_t, int); con_map_hook(p, len, 1); }
#endif
	return p;
}
void *__wrap_mmap64(void *a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
int __wrap_mprotect(void *a, size_t len, int prot)
{
	map_t *m = find_map(a); long v = ENOMEM;
	if (!m) return __real_mprotect(a, len, prot);
	int lo = (unsigned char *)a == m->base, hi = (unsigned char *)a + ((len + PG - 1) & ~(size_t)(PG - 1)) == m->base + m->len;
	if ((!(hi && !lo) && match("mprot", W->alloc, &v)) || (lo == hi && match("mprot2", W->alloc, &v)) || (hi && !lo && match("mprot2", W->alloc, &v))) { stat_add("fault.mprotect", 1); errno = v ? (int)v : ENOMEM; return -1; }
	int r = __real_mprotect(a, len, prot);
	if (!r) {
		if (lo) m->lo = prot == PROT_NONE;
		if (hi) m->hi = prot == PROT_NONE;
		if (prot != PROT_NONE) m->none = 0;
		else if (lo && hi) m->none = 1;
	}
	return r;
}
int __wrap_madvise(void *a, size_t len, int adv)
{
	map_t *m = find_map(a); long v = EINVAL;
	if (m && adv == MADV_DONTDUMP) m->nodump = (unsigned char *)a <= m->base + (m->lo ? PG : 0) && (unsigned char *)a + ((len + PG - 1) & ~(size_t)(PG - 1)) >= m->base + m->len - (m->hi ? PG : 0);
	if (match("madvise", W->alloc, &v)) { stat_add("fault.madvise", 1); errno = (int)v; return -1; }
	return 0;
}
int __wrap_mlock(const void *a, size_t len)
{
	map_t *m = find_map(a); long v = EPERM;
	if (match("mlock", W->alloc, &v) || (P.mlockmode && (v = P.mlockmode))) { stat_add("fault.mlock", 1); errno = (int)v; return -1; }
	if (m) m->locked = (const unsigned char *)a <= m->base + (m->lo ? PG : 0) && (const unsigned char *)a + ((len + PG - 1) & ~(size_t)(PG - 1)) >= m->base + m->len - (m->hi ? PG : 0);	/* all of the state */
	return 0;
}
int __wrap_mlock2(const void *a, size_t len, int f) { (void)f; return __wrap_mlock(a, len); }
int __wrap_munlock(const void *a, size_t len) { (void)len; map_t *m = find_map(a); if (m) m->locked = 0; return 0; }
#ifdef V_ASAN
/* state memory is rounded up to pages: tell the instrumentation what was really asked for */
void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t);
extern void *__real_jent_zalloc(size_t, unsigned) __attribute__((weak)); extern void __real_jent_zfree(void *, size_t) __attribute__((weak));
void *__wrap_jent_zalloc(size_t len, unsigned flags); void __wrap_jent_zfree(void *p, size_t len);
void *__wrap_jent_zalloc(size_t len, unsigned flags)
{
	unsigned char *p = __real_jent_zalloc(len, flags); map_t *m = p ? find_map(p) : NULL;
	if (m) {
		unsigned char *lo = m->base + (m->lo ? PG : 0), *hi = m->base + m->len - (m->hi ? PG : 0);
		if (p > lo) __asan_poison_memory_region(lo, (size_t)(p - lo));
		if (p + len < hi) { __asan_poison_memory_region(p + len, (size_t)(hi - p) - len); stat_add("os.slack", 1); }
	}
	return p;
}
void __wrap_jent_zfree(void *p, size_t len)
{
	map_t *m = p ? find_map(p) : NULL;
	if (m) __asan_unpoison_memory_region(m->base, m->len);
	__real_jent_zfree(p, len);
}
#endif
int __wrap_munmap(void *a, size_t len)
{
	map_t *m = find_map(a);
	if (!m) {
		for (int i = nmaps - 1; i >= 0; i--)
			if ((unsigned char *)a >= maps[i].base && (unsigned char *)a < maps[i].base + maps[i].len)
				viol("double-free", "memory of an already released region is released again");
		return __real_munmap(a, len);
	}
	if (m->base != a || m->len != len)
		viol("bad-release", "release covers %zu bytes of a %zu byte mapping", len, m->len);
	unsigned char *p = m->base, *e = m->base + m->len;
	if (m->lo) p += PG;
	if (m->hi) e -= PG;
	for (uint64_t *q = (uint64_t *)p; !m->none && (unsigned char *)q < e; q++)
		if (*q) viol("unwiped", "state memory released with content at offset %zu of %zu", (size_t)((unsigned char *)q - p), (size_t)(e - p));
	m->live = 0; live_maps--; live_bytes -= (long)m->len;
	stat_add("os.munmap", 1);
#ifdef V_ASAN
	__asan_unpoison_memory_region(m->base, m->len);
#endif
#ifdef V_CON
	{ void con_map_hook(unsigned char *, size_t, int); con_map_hook(m->base, m->len, 0); }
#endif
	/* quarantine: any later access faults */
	__real_mprotect(m->base, m->len, PROT_NONE);
	syscall(28 /* madvise */, m->base, m->len, MADV_DONTNEED);
	return 0;
}
/* locked_op: maps created by this operation must be locked (-2: none) */
#ifdef V_HEAP
#include "heap.c"
#else
void w_check_maps(int locked_op, const char *when)
{
	for (int i = 0; i < nmaps; i++) {
		map_t *m = &maps[i];
		if (!m->live) continue;
		if (!m->lo || !m->hi) viol("guard", "%s: state memory without inaccessible guard pages (%d/%d)", when, m->lo, m->hi);
		if (!m->nodump) viol("nodump", "%s: state memory not excluded from core dumps", when);
		if (locked_op != -2 && m->op == locked_op && !m->locked) viol("unlocked", "%s: state memory (%zu bytes) not locked although secure memory is required", when, m->len);
	}
}
#endif

/* ---------- files ---------- */
/* index0 L1 data, index1 L1 instruction, index2 L2, index3 L3; the last CPU is the big core */
static long cache_sz(long cpu, unsigned idx)
{
	long sz = idx == 0 ? P.l1 : idx == 1 ? 1 << 20 : idx == 2 ? P.l2 : P.l3;
	return cpu == P.ncpu - 1 ? sz : sz / 2;
}
/* how the host describes this cache: 0 properly, 1 in M, 2 text too long, 3 no number, 4 zero, 5 out of range, 6 no size, 7 bad level,
 * 8 no level, 9 other type, 10 absent, 11 unreadable size; with instrumentation also 12 long level, 13 long type */
static int cache_shape(long cpu, unsigned idx)
{
	uint64_t c = (uint64_t)cfgl("cshape", 0), x;
	if (!c) return 0;
	x = (c + (uint64_t)cpu * 5 + idx + 1) * 0x9e3779b97f4a7c15ULL; x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27;
	if (x % 100 < 45) return 0;
#if defined(V_ASAN) || defined(V_MSAN)
	return 1 + (int)(x / 100 % 13);
#else
	return 1 + (int)(x / 100 % 11);
#endif
}
static void sysconf_sizes(long *c)
{
	switch (cfgl("sysc", 0)) { case 1: c[0] = 0; break; case 2: c[0] /= 2; c[1] /= 2; c[2] /= 2; break; case 3: c[0] = c[1] = c[2] = 0; break; case 4: c[1] = c[2] = 0; break; }
}
typedef struct { int used, kind; long off; int eintr; char txt[512]; long len; } vfd_t;	/* kind: 1 urandom 2 fips 3 text */
static vfd_t vfd[64]; static long live_fds;
#define VF(fd) (&vfd[(fd) ? (fd) - 5000 : 0])
long w_fds_live(void) { return live_fds; }
static uint64_t prf(int stream, uint64_t i) { rng_t r = { P.clkseed * 31 + (uint64_t)stream * 1000003 + i * 0x9e3779b9ULL + 77 }; return rng_next(&r) ^ (rng_next(&r) << 1); }
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);

static int vopen(int kind, const char *txt, long len)
{
	for (int i = 0; i < 64; i++) if (!vfd[i].used) {
		memset(&vfd[i], 0, sizeof vfd[i]);
		vfd[i].used = 1; vfd[i].kind = kind; vfd[i].len = len;
		if (txt) memcpy(vfd[i].txt, txt, (size_t)len);
		live_fds++;
		if (!i && cfgl("lowfd", 0)) { stat_add("fault.low_fd", 1); return 0; }	/* the application runs without standard input */
		return 5000 + i;
	}
	errno = EMFILE; return -1;
}
int __wrap_open(const char *path, int flags, ...)
{
	mode_t mode = 0; long v;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) {
		if (w_fault("uropen", &v)) { errno = (int)v; return -1; }
		return vopen(1, NULL, 0);
	}
	if (!strcmp(path, "/proc/sys/crypto/fips_enabled")) {
		stat_add("os.fips_open", 1);
		switch (P.fips) {
		case 0: errno = ENOENT; return -1;
		case 1: return vopen(3, "0\n", 2);
		case 2: return vopen(3, "1\n", 2);
		case 3: { int fd = vopen(3, "1\n", 2); if (fd >= 0) VF(fd)->eintr = 3; stat_add("fault.fips_eintr", 1); return fd; }
		case 4: { int fd = vopen(3, "1\n", 2); if (fd >= 0) VF(fd)->eintr = -EIO; stat_add("fault.fips_eio", 1); return fd; }
		case 5: stat_add("fault.fips_empty", 1); return vopen(3, "", 0);
		case 6: stat_add("fault.fips_eacces", 1); errno = EACCES; return -1;
		case 8: return vopen(3, "\n", 1);
		case 9: return vopen(3, "2\n", 2);
		default: return vopen(3, "1", 1);
		}
	}
	if (!strncmp(path, "/sys/devices/system/cpu/", 24)) {
		const char *q = path + 24; char b[512];
		if (!strcmp(q, "online")) {
			if (!(P.sysfs & 1)) { errno = ENOENT; return -1; }
			if (P.sysfs & 2) {	/* a list longer than any sane buffer */
				size_t n = 0; for (int i = 0; n < 480; i++) n += (size_t)snprintf(b + n, sizeof b - n, "%s%d", i ? "," : "", i * 2);
				stat_add("fault.sysfs_long", 1);
				return vopen(3, b, (long)n);
			}
			if (P.ncpu > 2) snprintf(b, sizeof b, "0-%ld,%ld\n", P.ncpu - 2, P.ncpu);
			else snprintf(b, sizeof b, P.ncpu == 2 ? "0-1\n" : "0\n");
			int fd = vopen(3, b, (long)strlen(b));
			if (fd >= 0 && (P.sysfs & 8)) { VF(fd)->eintr = 2; stat_add("fault.sysfs_eintr", 1); }
			return fd;
		}
		long cpu; unsigned idx; char attr[16];
		if (sscanf(q, "cpu%ld/cache/index%u/%15s", &cpu, &idx, attr) == 3 && (P.sysfs & 16) && cpu < P.ncpu && idx < 4) {
			long sz = cache_sz(cpu, idx); int sh = cache_shape(cpu, idx);
			int ty = !strcmp(attr, "type"), le = !strcmp(attr, "level");
			if (sh) stat_add("fault.sysfs_shape", 1);
			if ((sh == 10 && ty) || (sh == 8 && le) || (sh == 6 && !ty && !le)) { errno = ENOENT; return -1; }
			if (ty) snprintf(b, sizeof b, sh == 13 ? "%-60s\n" : "%s\n", sh == 9 ? "Trace" : idx == 0 ? "Data" : idx == 1 ? "Instruction" : "Unified");
			else if (le) { if (sh == 7) snprintf(b, sizeof b, "%s\n", cpu & 1 ? "x" : "0"); else snprintf(b, sizeof b, sh == 12 ? "%040d\n" : "%d\n", idx < 2 ? 1 : (int)idx); }
			else if (sh == 1 && sz >= 1 << 20 && sz % (1 << 20) == 0) snprintf(b, sizeof b, "%ldM\n", sz >> 20);
			else if (sh == 2) snprintf(b, sizeof b, "%0*ldK\n", 30 + (int)(cpu + idx) % 4 * (cpu & 1 ? 1 : 20), sz / 1024);	/* as long as the library's buffer, or longer */
			else if (sh == 3) snprintf(b, sizeof b, "%s\n", cpu & 1 ? "K" : "none");
			else if (sh == 4) snprintf(b, sizeof b, "0K\n");
			else if (sh == 5) snprintf(b, sizeof b, "%s\n", cpu & 1 ? "9999999999999999M" : "99999999999999999999K");
			else snprintf(b, sizeof b, "%ldK\n", sz / 1024);
			if (sh == 11 && !ty && !le) { int fd = vopen(3, b, (long)strlen(b)); if (fd >= 0) VF(fd)->eintr = -EIO; return fd; }
			int fd = vopen(3, b, (long)strlen(b));
			if (fd >= 0 && (P.sysfs & 32)) { VF(fd)->eintr = 1; stat_add("fault.sysfs_eintr", 1); }
			return fd;
		}
		errno = ENOENT; return -1;
	}
	return __real_open(path, flags, mode);
}
int __wrap_open64(const char *path, int flags, ...) { return __wrap_open(path, flags, 0); }
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
	long v;
	if (!fd && cfgl("lowfd", 0)) fd = 5000;
	if (fd < 5000 || fd >= 5064) return __real_read(fd, buf, n);
	vfd_t *f = &vfd[fd - 5000];
	if (!f->used) viol("bad-fd", "read from a closed descriptor");
	if (f->kind == 1) {
		size_t k = n;
		if (w_fault("urread", &v)) {
			if (v == 1) { errno = EINTR; return -1; }
			if (v == 2) k = n > 1 ? n / 2 : 1;
			else if (v == 4) return 0;
			else { errno = EIO; return -1; }
		}
		for (size_t i = 0; i < k; i++) ((unsigned char *)buf)[i] = (unsigned char)prf(2 + 8 * (int)(W - ctxs), W->ur_off++);
		return (ssize_t)k;
	}
	if (f->eintr > 0) { f->eintr--; errno = EINTR; return -1; }
	if (f->eintr < 0) { errno = -f->eintr; return -1; }
	size_t k = (size_t)(f->len - f->off); if (k > n) k = n;
	memcpy(buf, f->txt + f->off, k); f->off += (long)k;
	return (ssize_t)k;
}
int __wrap_close(int fd)
{
	if (!fd && cfgl("lowfd", 0)) fd = 5000;
	if (fd < 5000 || fd >= 5064) return __real_close(fd);
	if (!vfd[fd - 5000].used) viol("bad-fd", "descriptor closed twice");
	vfd[fd - 5000].used = 0; live_fds--;
	return 0;
}
/* other ways to read the same files */
int __wrap_openat(int dir, const char *path, int flags, ...) { (void)dir; return __wrap_open(path, flags, 0600); }
int __wrap_openat64(int dir, const char *path, int flags, ...) { (void)dir; return __wrap_open(path, flags, 0600); }
ssize_t __real_pread(int, void *, size_t, off_t);
ssize_t __wrap_pread(int fd, void *buf, size_t n, off_t off)
{
	int k = !fd && cfgl("lowfd", 0) ? 5000 : fd;
	if (k < 5000 || k >= 5064) return __real_pread(fd, buf, n, off);
	vfd_t *f = &vfd[k - 5000]; long keep = f->off; f->off = off > f->len ? f->len : off;
	ssize_t r = __wrap_read(k, buf, n);
	f->off = keep;
	return r;
}
ssize_t __wrap_pread64(int fd, void *buf, size_t n, off_t off) { return __wrap_pread(fd, buf, n, off); }
static ssize_t ck_read(void *c, char *b, size_t n) { return __wrap_read((int)(long)c, b, n); }
static int ck_close(void *c) { return __wrap_close((int)(long)c); }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode)
{
	if (*mode != 'r' || (strncmp(path, "/sys/", 5) && strncmp(path, "/proc/", 6) && strncmp(path, "/dev/", 5))) return __real_fopen(path, mode);
	int fd = __wrap_open(path, O_RDONLY);
	if (fd < 0) return NULL;
	FILE *f = fopencookie((void *)(long)fd, "r", (cookie_io_functions_t){ .read = ck_read, .close = ck_close });
	if (!f) __wrap_close(fd);
	return f;
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
ssize_t __wrap_getrandom(void *, size_t, unsigned);
int __wrap_getentropy(void *buf, size_t n) { ssize_t r; do r = __wrap_getrandom(buf, n, 0); while (r < 0 && errno == EINTR); return r == (ssize_t)n ? 0 : -1; }
static int rnd_calls;
long w_rand_calls(void) { return rnd_calls; }
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned flags)
{
	long v; size_t k = n; (void)flags;
	rnd_calls++;
	if (w_fault("getrandom", &v)) {
		if (v == 1) { errno = EINTR; return -1; }
		if (v == 2) k = n > 1 ? n / 2 : 1;
		else { errno = v == 3 ? ENOSYS : EAGAIN; return -1; }
	}
	for (size_t i = 0; i < k; i++) ((unsigned char *)buf)[i] = (unsigned char)prf(1 + 8 * (int)(W - ctxs), W->gr_off++);
	return (ssize_t)k;
}
#ifdef V_KHOST
void get_random_bytes(void *buf, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)prf(1, W->gr_off++); }
#endif
/* model side of the random source: own offsets and ordinals */
static uint64_t mgr_off, mur_off; static long m_gr, m_uo, m_ur; static int m_op = -12345;
void w_rand_expect(unsigned char out[16], int *ok)
{
	size_t i = 0; long v;
#ifdef V_BARE
	*ok = 0; return;	/* nobody to ask */
#elif defined(V_KHOST)
	for (i = 0; i < 16; i++) out[i] = (unsigned char)prf(1, mgr_off++);
	*ok = 1; return;
#endif
	if (m_op != W->op) { m_op = W->op; m_gr = m_uo = m_ur = 0; }
	int good = 1;
	while (i < 16) {
		size_t k = 16 - i;
		if (match("getrandom", m_gr++, &v)) {
			if (v == 1) continue;
			if (v == 2) k = k > 1 ? k / 2 : 1; else { good = 0; break; }
		}
		while (k--) out[i++] = (unsigned char)prf(1, mgr_off++);
	}
	if (good) { *ok = 1; return; }
	if (match("uropen", m_uo++, &v)) { *ok = 0; return; }
	i = 0;
	while (i < 16) {
		size_t k = 16 - i;
		if (match("urread", m_ur++, &v)) {
			if (v == 1) continue;
			if (v == 2) k = k > 1 ? k / 2 : 1; else { *ok = 0; return; }
		}
		while (k--) out[i++] = (unsigned char)prf(2, mur_off++);
	}
	*ok = 1;
}

/* ---------- host ---------- */
#ifdef V_BARE
int w_fips_model(void) { return 0; }
#else
int w_fips_model(void) { return P.fips == 2 || P.fips == 3 || P.fips == 7; }
#endif
static int aff_ok(void) { return P.aff_sparse != 2 && P.aff_sparse != 5; }
long w_ncpu_model(void)
{
#ifdef V_BARE
	return 1;
#elif defined(V_KHOST)
	return P.ncpu;
#endif
	if (aff_ok()) return P.ncpu;
#ifdef V_NONGLIBC
	if ((P.sysfs & 3) == 1) return P.ncpu;
#endif
	if (P.sysfs & 4) return -EINVAL;
	return P.ncpu;
}
long w_cpu_number(long i) { return P.aff_sparse == 1 ? 8 + 2 * i : P.aff_sparse == 4 ? 1500 + 3 * i : i; }
int __wrap_sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set)
{
	(void)pid; long v;
	if (w_fault("affinity", &v)) { errno = (int)v; return -1; }
	if (P.aff_sparse == 2) { stat_add("fault.affinity", 1); errno = EPERM; return -1; }
	if (P.aff_sparse == 3 && sz < 512) { stat_add("fault.affinity_small", 1); errno = EINVAL; return -1; }
	if (P.aff_sparse == 4 && sz < 256) { stat_add("fault.affinity_small", 1); errno = EINVAL; return -1; }
	memset(set, 0, sz);
	if (P.aff_sparse == 5) { stat_add("fault.affinity_empty", 1); return 0; }
	for (long i = 0; i < P.ncpu; i++) CPU_SET_S((size_t)w_cpu_number(i), sz, set);
	return 0;
}
long last_pin = -1; int pin_calls;
int __wrap_sched_setaffinity(pid_t pid, size_t sz, const cpu_set_t *set)
{
	(void)pid; long v; last_pin = -1; pin_calls++;
	for (size_t i = 0; i < sz * 8; i++) if (CPU_ISSET_S(i, sz, set)) last_pin = (long)i;
#ifdef V_CON
	{ void con_pin_hook(void); con_pin_hook(); }
#endif
	if (w_fault("setaffinity", &v)) { errno = EINVAL; return -1; }
	return 0;
}
long __real_sysconf(int);
long __wrap_sysconf(int n)
{
	switch (n) {
	case _SC_NPROCESSORS_ONLN: if (P.sysfs & 4) { stat_add("fault.sysconf", 1); errno = EINVAL; return -1; } return P.ncpu;
	case _SC_NPROCESSORS_CONF: return P.ncpu;
	case _SC_LEVEL1_DCACHE_SIZE: case _SC_LEVEL2_CACHE_SIZE: case _SC_LEVEL3_CACHE_SIZE: {
		long c[3] = { P.l1, P.l2, P.l3 };
		sysconf_sizes(c);
		if (n == _SC_LEVEL1_DCACHE_SIZE) return c[0] ? c[0] : -1;
		return c[n == _SC_LEVEL2_CACHE_SIZE ? 1 : 2]; }
	}
	return __real_sysconf(n);
}
/* documented: smallest power of two greater than the (largest) L1 data cache, or of all caches */
unsigned w_cache_bits(int all)
{
	uint32_t s = (uint32_t)P.l1 + (all ? (uint32_t)P.l2 + (uint32_t)P.l3 : 0);
	unsigned b = 0;
#ifdef V_BARE
	{ unsigned sim_cpuid_bits(int, const int *, int); static const int one[1] = { 0 }; return sim_cpuid_bits(all, one, 1); }
#elif defined(V_KHOST)
	{ unsigned sim_khost_bits(int); return sim_khost_bits(all); }
#endif
	{
		long l[3] = { 0, 0, 0 }, c[3] = { P.l1, P.l2, P.l3 };
		sysconf_sizes(c);
		if (P.sysfs & 16) for (long cpu = 0; cpu < P.ncpu; cpu++) for (unsigned i = 0; i < 4; i++) {
			int sh = cache_shape(cpu, i), k = i < 2 ? 0 : (int)i - 1; long v = cache_sz(cpu, i) / 1024 * 1024;
			if (sh == 10) break;	/* indices are contiguous */
			if (i == 1 || (sh >= 2 && sh <= 12)) continue;
			if (v > l[k]) l[k] = v;
		}
#ifndef V_NONGLIBC
		if (!l[0]) for (int k = 0; k < 3; k++) if (c[k] > l[k]) l[k] = c[k];
#endif
		s = (uint32_t)l[0] + (all ? (uint32_t)l[1] + (uint32_t)l[2] : 0);
	}
	if (!s) return 0;
	while (s) { s >>= 1; b++; }
	return b;
}

/* ---------- memory fault in the conditioning component's constants ---------- */
int w_kat_now;
static uint64_t *kat_tab[8]; static int kat_n = -1;
static int kat_cb(struct dl_phdr_info *i, size_t sz, void *arg)
{
	(void)sz; (void)arg;
	if (i->dlpi_name && i->dlpi_name[0]) return 0;	/* main program only */
	for (int k = 0; k < i->dlpi_phnum; k++) {
		const ElfW(Phdr) *ph = &i->dlpi_phdr[k];
		if (ph->p_type != PT_LOAD || !(ph->p_flags & PF_R)) continue;
		uint64_t *a = (uint64_t *)((i->dlpi_addr + ph->p_vaddr + 7) & ~7UL), *e = (uint64_t *)(i->dlpi_addr + ph->p_vaddr + ph->p_memsz) - 24;
		for (; a < e; a++)
			if (a != ref_rc && a[0] == 1 && a[1] == 0x8082 && !memcmp(a, ref_rc, 24 * 8) && kat_n < 8) kat_tab[kat_n++] = a;
	}
	return 1;
}
void w_kat_locate(void) { kat_n = 0; dl_iterate_phdr(kat_cb, NULL); }
int w_kat_set(int broken)
{
	if (kat_n < 0) w_kat_locate();
	if (!kat_n) return 0;
	if (!!broken == w_kat_now) return 1;
	for (int i = 0; i < kat_n; i++) {
		unsigned long p = (unsigned long)kat_tab[i] & ~(PG - 1);
		__real_mprotect((void *)p, 2 * PG, PROT_READ | PROT_WRITE);
		kat_tab[i][7] ^= 1ULL << 17;
	}
	ref_rc[7] ^= 1ULL << 17;	/* the model computes with the same hardware */
	w_kat_now = !!broken;
	return 1;
}

void w_check_quiesced(const char *when)
{
	if (live_maps) {
		for (int i = 0; i < nmaps; i++) if (maps[i].live)
			viol("leak-mem", "%s: %ld state mapping(s) never released (first: %zu bytes, allocated in op %d)", when, live_maps, maps[i].len, maps[i].op);
	}
	if (live_fds) viol("leak-fd", "%s: %ld descriptor(s) never closed", when, live_fds);
}
void w_reset(void) { }
