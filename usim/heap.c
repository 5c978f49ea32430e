/*
 * The memory services of the crypto libraries the library can be built
 * against (included by world.c). Each has an ordinary heap and, but for
 * AWS-LC, a secure arena which the application may not have created or which
 * may be used up. Faults: "mmap" - the ordinary heap refuses, "mlock" - the
 * arena is used up, cfg mlockmode - there is no arena.
 */
static size_t last_len; static int last_secure, last_ok;
static int arena_absent(void) { return P.mlockmode != 0; }
/* one request of the library may try the arena, then the heap: the same attempt */
static void attempt(size_t len, int secure)
{
	if (!(!secure && last_secure && !last_ok && last_len == len)) W->alloc++;
	last_len = len; last_secure = secure; last_ok = 0;
}
static int arena_grants(long ord) { long v; return !arena_absent() && !match("mlock", ord, &v); }
static void *heap_new(size_t len, int secure)
{
	size_t tot = ((len + 15) & ~(size_t)15) + PG; tot = (tot + PG - 1) & ~(size_t)(PG - 1);
	unsigned char *b = __real_mmap(NULL, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	map_t *m = b == MAP_FAILED ? NULL : map_new();
	if (!m) { fprintf(stderr, "simulator: out of memory\n"); _exit(3); }
	if (tot >= 8UL << 20) __real_madvise(b, tot, MADV_HUGEPAGE);
	__real_mprotect(b + tot - PG, PG, PROT_NONE);	/* the end of the block is the end of the page */
	m->base = b; m->len = tot; m->live = 1; m->op = W->op; m->locked = secure; m->pay = len; m->ptr = b + tot - PG - ((len + 15) & ~(size_t)15);
	memset(b, 0xa5, tot - PG);	/* what the heap hands out has a history */
	live_maps++; live_bytes += (long)tot;
	last_ok = 1;
	stat_add(secure ? "os.arena_alloc" : "os.heap_alloc", 1);
	return m->ptr;
}
static void *heap_ordinary(size_t len)
{
	long v; int tried = last_secure && !last_ok && last_len == len;
	attempt(len, 0);
	if (match("mmap", W->alloc, &v)) { stat_add("fault.heap", 1); tr("  fault heap #%ld", W->alloc); return NULL; }
	void *p = heap_new(len, 0);
#if defined(V_AWSLC) || defined(V_BARE)
	(void)tried; (void)arena_grants;
#else
	if (!tried && arena_grants(W->alloc)) maps[nmaps - 1].skipped = 1;
#endif
	return p;
}
__attribute__((unused)) static void *heap_secure(size_t len)
{
	long v;
	attempt(len, 1);
	if (arena_absent()) {
		stat_add("fault.arena_absent", 1);
#ifdef V_GCRYPT
		if (P.mlockmode == EPERM || match("mmap", W->alloc, &v)) return NULL;
#else
		if (match("mmap", W->alloc, &v)) return NULL;
#endif
		void *p = heap_new(len, 0);	/* secure memory disabled: this comes from the heap */
		last_ok = 0;
		return p;
	}
	if (match("mlock", W->alloc, &v)) { stat_add("fault.arena_full", 1); tr("  fault arena #%ld", W->alloc); return NULL; }
	return heap_new(len, 1);
}
static map_t *heap_find(const void *p)
{
	map_t *m = find_map(p);
	return m && m->ptr == p ? m : NULL;
}
static void heap_free(void *p, int wipes_ordinary, int takes_secure)
{
	if (!p) return;
	map_t *m = heap_find(p);
	if (!m) {
		for (int i = nmaps - 1; i >= 0; i--) if (maps[i].ptr == p) { viol("double-free", "state memory is released again"); return; }
		viol("bad-release", "memory released to the crypto library that did not come from it"); return;
	}
	if (m->locked && !takes_secure) viol("bad-release", "memory of the secure arena released to the ordinary heap");
	for (unsigned char *q = m->ptr + m->pay; q < m->base + m->len - PG; q++) if (*q != 0xa5) viol("overflow", "write beyond the end of state memory (%zu bytes)", m->pay);
	for (unsigned char *q = m->base; q < m->ptr; q++) if (*q != 0xa5) viol("overflow", "write before the start of state memory (%zu bytes)", m->pay);
	if (!m->locked && !wipes_ordinary)
		for (size_t i = 0; i < m->pay; i++) if (m->ptr[i]) {
			/* a block that was never handed on still holds only what the heap left in it */
			size_t k = 0; while (k < m->pay && m->ptr[k] == 0xa5) k++;
			if (k == m->pay) break;
			viol("unwiped", "state memory released with content at offset %zu of %zu", i, m->pay);
		}
	m->live = 0; live_maps--; live_bytes -= (long)m->len;
	stat_add("os.heap_free", 1);
	__real_mprotect(m->base, m->len, PROT_NONE);
	syscall(28 /* madvise */, m->base, m->len, MADV_DONTNEED);
}
static void *zeroed(void *p, size_t n) { if (p) memset(p, 0, n); return p; }
__attribute__((unused)) static void *fatal(void *p, size_t n) { if (!p) viol("crash", "the crypto library ended the process: a request for %zu bytes that may not fail was refused", n); return p; }
#if defined(V_GCRYPT)
void *gcry_malloc(size_t n) { return heap_ordinary(n); }
void *gcry_calloc(size_t n, size_t m) { return zeroed(heap_ordinary(n * m), n * m); }
void *gcry_malloc_secure(size_t n) { return heap_secure(n); }
void *gcry_calloc_secure(size_t n, size_t m) { return zeroed(heap_secure(n * m), n * m); }
void *gcry_xmalloc(size_t n) { return fatal(heap_ordinary(n), n); }
void *gcry_xcalloc(size_t n, size_t m) { return zeroed(fatal(heap_ordinary(n * m), n * m), n * m); }
void *gcry_xmalloc_secure(size_t n) { return fatal(heap_secure(n), n); }
void *gcry_xcalloc_secure(size_t n, size_t m) { return zeroed(fatal(heap_secure(n * m), n * m), n * m); }
int gcry_is_secure(const void *p) { map_t *m = find_map(p); return m && m->locked; }
void gcry_free(void *p) { heap_free(p, 0, 1); }
int gcry_fips_mode_active(void) { return w_fips_model(); }
#elif defined(V_BARE)	/* the integrator's malloc() and free() */
void *sim_malloc(size_t n) { return heap_ordinary(n); }
void *sim_calloc(size_t n, size_t m) { return zeroed(heap_ordinary(n * m), n * m); }
void sim_free(void *p) { heap_free(p, 0, 0); }
#else
void *OPENSSL_malloc(size_t n) { return heap_ordinary(n); }
void *OPENSSL_zalloc(size_t n) { return zeroed(heap_ordinary(n), n); }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); __asm__ __volatile__("" : : "r" (p) : "memory"); }
# ifdef V_AWSLC
void OPENSSL_free(void *p) { heap_free(p, 1, 0); }
void OPENSSL_clear_free(void *p, size_t n) { (void)n; heap_free(p, 1, 0); }
int FIPS_mode(void) { return w_fips_model(); }
# else
void OPENSSL_free(void *p) { heap_free(p, 0, 0); }
void OPENSSL_clear_free(void *p, size_t n) { if (p) OPENSSL_cleanse(p, n); heap_free(p, 0, 0); }
void *OPENSSL_secure_malloc(size_t n) { return heap_secure(n); }
void *OPENSSL_secure_zalloc(size_t n) { return zeroed(heap_secure(n), n); }
void OPENSSL_secure_free(void *p) { heap_free(p, 0, 1); }
void OPENSSL_secure_clear_free(void *p, size_t n) { if (p) OPENSSL_cleanse(p, n); heap_free(p, 0, 1); }
int CRYPTO_secure_malloc_initialized(void) { return !arena_absent(); }
int CRYPTO_secure_allocated(const void *p) { map_t *m = find_map(p); return m && m->locked; }
int EVP_default_properties_is_fips_enabled(void *c) { (void)c; return w_fips_model(); }
# endif
#endif
/* the one place all state memory comes from: what it hands on is zero */
extern void *__real_jent_zalloc(size_t, unsigned) __attribute__((weak)); void *__wrap_jent_zalloc(size_t len, unsigned flags);
void *__wrap_jent_zalloc(size_t len, unsigned flags)
{
	unsigned char *p = __real_jent_zalloc(len, flags); map_t *m = p ? heap_find(p) : NULL;
	if (m && m->pay && (p[0] || memcmp(p, p + 1, m->pay - 1))) { size_t i = 0; while (!p[i]) i++; viol("unwiped", "state memory obtained with another owner's content at offset %zu of %zu", i, m->pay); }
	return p;
}
void w_check_maps(int locked_op, const char *when)
{
	for (int i = 0; i < nmaps; i++) {
		map_t *m = &maps[i];
		if (!m->live) continue;
		if (m->skipped) viol("unlocked", "%s: state memory (%zu bytes) taken from the ordinary heap although the secure arena has room", when, m->pay);
#if !defined(V_AWSLC) && !defined(V_BARE)
		if (locked_op != -2 && m->op == locked_op && !m->locked) viol("unlocked", "%s: state memory (%zu bytes) is not from the secure arena although secure memory is required", when, m->pay);
#else
		(void)locked_op;
#endif
	}
}
