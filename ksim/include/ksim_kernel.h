/*
 * The part of the Linux kernel's interface a driver of this kind may use, as a
 * simulation.  Every <linux/...>, <crypto/...> and <asm/...> header the
 * module's sources name is generated as a forwarder to this file.
 */
#ifndef KSIM_KERNEL_H
#define KSIM_KERNEL_H

#ifdef KSIM_HOST
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <fcntl.h>
#include <sys/types.h>
#else
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
typedef __INT8_TYPE__ int8_t; typedef __INT16_TYPE__ int16_t; typedef __INT32_TYPE__ int32_t; typedef __INT64_TYPE__ int64_t;
typedef __UINT8_TYPE__ uint8_t; typedef __UINT16_TYPE__ uint16_t; typedef __UINT32_TYPE__ uint32_t; typedef __UINT64_TYPE__ uint64_t;
typedef __UINTPTR_TYPE__ uintptr_t; typedef __INTPTR_TYPE__ intptr_t;
typedef long ssize_t; typedef long loff_t; typedef unsigned short mode_t; typedef long off_t; typedef int pid_t;
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t);
int memcmp(const void *, const void *, size_t); void *memchr(const void *, int, size_t);
size_t strlen(const char *); size_t strnlen(const char *, size_t); int strcmp(const char *, const char *); int strncmp(const char *, const char *, size_t);
char *strcpy(char *, const char *); char *strncpy(char *, const char *, size_t); char *strcat(char *, const char *); char *strchr(const char *, int); char *strrchr(const char *, int); char *strstr(const char *, const char *); char *strsep(char **, const char *);
int snprintf(char *, size_t, const char *, ...) __attribute__((format(printf, 3, 4)));
int sprintf(char *, const char *, ...); int vsnprintf(char *, size_t, const char *, va_list);
#define SCHAR_MAX 127
#define CHAR_BIT 8
#define SHRT_MAX 32767
#define USHRT_MAX 65535
#define INT_MAX 0x7fffffff
#define INT_MIN (-INT_MAX - 1)
#define UINT_MAX 0xffffffffU
#define LONG_MAX 0x7fffffffffffffffL
#define LONG_MIN (-LONG_MAX - 1)
#define ULONG_MAX 0xffffffffffffffffUL
#define LLONG_MAX LONG_MAX
#define ULLONG_MAX 0xffffffffffffffffULL
#define SIZE_MAX 0xffffffffffffffffUL
#define SSIZE_MAX LONG_MAX
#define O_RDONLY 0
#define O_WRONLY 1
#define O_RDWR 2
#define O_NONBLOCK 04000
#define O_ACCMODE 3
#endif
#define EPERM 1
#define ENOENT 2
#define EINTR 4
#define EIO 5
#define ENXIO 6
#define E2BIG 7
#define EBADF 9
#define EAGAIN 11
#define EWOULDBLOCK 11
#define ENOMEM 12
#define EACCES 13
#define EFAULT 14
#define EBUSY 16
#define EEXIST 17
#define ENODEV 19
#define EINVAL 22
#define ENFILE 23
#define ENOTTY 25
#define EFBIG 27
#define ENOSPC 28
#define EPIPE 32
#define EDOM 33
#define ERANGE 34
#define EDEADLK 35
#define ENOSYS 38
#define ENODATA 61
#define ETIME 62
#define EOVERFLOW 75
#define EBADMSG 74
#define EOPNOTSUPP 95
#define ETIMEDOUT 110
#define ECANCELED 125
#define ERESTARTSYS 512
#define ENOIOCTLCMD 515
#define ENOTSUPP 524

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef uint8_t __u8; typedef uint16_t __u16; typedef uint32_t __u32; typedef unsigned long long __u64; typedef int32_t __s32; typedef long long __s64;
typedef __u64 __attribute__((aligned(8))) __aligned_u64;
typedef unsigned short umode_t; typedef unsigned int gfp_t; typedef uint32_t dev_t_k;
typedef unsigned int uint_k;
#ifndef KSIM_HOST
typedef unsigned int uint; typedef unsigned long ulong; typedef unsigned char uchar; typedef unsigned short ushort;
#endif

/* ---- compiler ---- */
#define __user
#define __iomem
#define __force
#define __kernel
#define __rcu
#define __must_check
#define __maybe_unused __attribute__((unused))
#define __always_unused __attribute__((unused))
#define __init
#define __exit
#define __initdata
#define __exitdata
#define __initconst
#define __ro_after_init
#define __read_mostly
#define __cold
#define __hot
#define __pure __attribute__((pure))
#define noinline __attribute__((noinline))
#ifndef __always_inline
#define __always_inline inline __attribute__((always_inline))
#endif
#define __packed __attribute__((packed))
#define __aligned(x) __attribute__((aligned(x)))
#define __printf(a, b) __attribute__((format(printf, a, b)))
#define __acquires(x)
#define __releases(x)
#define __must_hold(x)
#define fallthrough __attribute__((__fallthrough__))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define barrier() __asm__ __volatile__("" ::: "memory")
#define READ_ONCE(x) (*(const volatile __typeof__(x) *)&(x))
#define WRITE_ONCE(x, v) do { *(volatile __typeof__(x) *)&(x) = (v); } while (0)
#define smp_load_acquire(p) __atomic_load_n(p, __ATOMIC_ACQUIRE)
#define smp_store_release(p, v) __atomic_store_n(p, v, __ATOMIC_RELEASE)
#define smp_mb() __atomic_thread_fence(__ATOMIC_SEQ_CST)
#define smp_rmb() smp_mb()
#define smp_wmb() smp_mb()
#define mb() smp_mb()
#define rmb() smp_mb()
#define wmb() smp_mb()
#define container_of(p, t, m) ((t *)((char *)(p) - offsetof(t, m)))
#define typeof_member(T, m) __typeof__(((T *)0)->m)
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#define BUILD_BUG_ON(c) _Static_assert(!(c), #c)
#define BUILD_BUG_ON_MSG(c, m) _Static_assert(!(c), m)
#ifndef static_assert
#define static_assert(c, ...) _Static_assert(c, #c)
#endif
#define IS_ENABLED(x) KS_ENA1(x)
#define KS_ENA1(x) KS_ENA2(KS_PH_##x)
#define KS_PH_1 0,
#define KS_ENA2(j) KS_ENA3(j 1, 0)
#define KS_ENA3(i, v, ...) v
#define IS_BUILTIN(x) IS_ENABLED(x)
#define IS_REACHABLE(x) IS_ENABLED(x)
#define min(a, b) ({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a < _b ? _a : _b; })
#define max(a, b) ({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a > _b ? _a : _b; })
#define umin(a, b) min((u64)(a), (u64)(b))
#define umax(a, b) max((u64)(a), (u64)(b))
#define min_t(t, a, b) ({ t _ma = (t)(a), _mb = (t)(b); _ma < _mb ? _ma : _mb; })
#define max_t(t, a, b) ({ t _ma = (t)(a), _mb = (t)(b); _ma > _mb ? _ma : _mb; })
#define min3(a, b, c) min(min(a, b), c)
#define max3(a, b, c) max(max(a, b), c)
#define clamp(v, l, h) min(max(v, l), h)
#define clamp_t(t, v, l, h) min_t(t, max_t(t, v, l), h)
#define clamp_val(v, l, h) clamp_t(__typeof__(v), v, l, h)
#define swap(a, b) do { __typeof__(a) _t = (a); (a) = (b); (b) = _t; } while (0)
#define DIV_ROUND_UP(n, d) (((n) + (d) - 1) / (d))
#define round_up(x, y) ((((x) - 1) | ((__typeof__(x))((y) - 1))) + 1)
#define round_down(x, y) ((x) & ~((__typeof__(x))((y) - 1)))
#define ALIGN(x, a) round_up(x, a)
#define ALIGN_DOWN(x, a) round_down(x, a)
#define IS_ALIGNED(x, a) (((x) & ((__typeof__(x))(a) - 1)) == 0)
#define BIT(n) (1UL << (n))
#define BIT_ULL(n) (1ULL << (n))
#define GENMASK(h, l) (((~0UL) << (l)) & (~0UL >> (63 - (h))))
#define U8_MAX ((u8)~0U)
#define U16_MAX ((u16)~0U)
#define U32_MAX ((u32)~0U)
#define U64_MAX ((u64)~0ULL)
#define S32_MAX ((s32)(U32_MAX >> 1))
#define PAGE_SIZE 4096UL
#define PAGE_SHIFT 12
#define SZ_1K 0x400
#define SZ_2K 0x800
#define SZ_4K 0x1000
#define SZ_8K 0x2000
#define SZ_16K 0x4000
#define SZ_32K 0x8000
#define SZ_64K 0x10000
#define SZ_128K 0x20000
#define SZ_256K 0x40000
#define SZ_512K 0x80000
#define SZ_1M 0x100000
#define SZ_256 0x100
#define SZ_512 0x200
#define SZ_128 0x80
#define SZ_64 0x40
#define __stringify_1(x...) #x
#define __stringify(x...) __stringify_1(x)
#define KBUILD_MODNAME "jitter_rng"
#ifndef pr_fmt
#define pr_fmt(f) f
#endif
#define KERN_ERR ""
#define KERN_WARNING ""
#define KERN_NOTICE ""
#define KERN_INFO ""
#define KERN_DEBUG ""
int ks_printk(const char *f, ...) __attribute__((format(printf, 1, 2)));
#define printk(f, ...) ks_printk(f, ##__VA_ARGS__)
#define pr_emerg(f, ...) ks_printk(pr_fmt(f), ##__VA_ARGS__)
#define pr_alert(f, ...) ks_printk(pr_fmt(f), ##__VA_ARGS__)
#define pr_crit(f, ...) ks_printk(pr_fmt(f), ##__VA_ARGS__)
#define pr_err(f, ...) ks_printk(pr_fmt(f), ##__VA_ARGS__)
#define pr_warn(f, ...) ks_printk(pr_fmt(f), ##__VA_ARGS__)
#define pr_warning(f, ...) ks_printk(pr_fmt(f), ##__VA_ARGS__)
#define pr_notice(f, ...) ks_printk(pr_fmt(f), ##__VA_ARGS__)
#define pr_info(f, ...) ks_printk(pr_fmt(f), ##__VA_ARGS__)
#define pr_debug(f, ...) do { if (0) ks_printk(pr_fmt(f), ##__VA_ARGS__); } while (0)
#define pr_devel pr_debug
#define pr_cont(f, ...) ks_printk(f, ##__VA_ARGS__)
#define pr_err_ratelimited pr_err
#define pr_warn_ratelimited pr_warn
#define pr_notice_ratelimited pr_notice
#define pr_info_ratelimited pr_info
#define pr_err_once pr_err
#define pr_warn_once pr_warn
#define pr_info_once pr_info
#define pr_notice_once pr_notice
void ks_panic(const char *f, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define panic(f, ...) ks_panic(f, ##__VA_ARGS__)
int ks_warn(const char *what);
#define WARN_ON(c) ({ int _w = !!(c); if (_w) ks_warn(#c); _w; })
#define WARN_ON_ONCE(c) WARN_ON(c)
#define WARN(c, f, ...) WARN_ON(c)
#define WARN_ONCE(c, f, ...) WARN_ON(c)
#define BUG() ks_panic("BUG")
#define BUG_ON(c) do { if (c) BUG(); } while (0)
extern int fips_enabled;

/* ---- error pointers ---- */
#define MAX_ERRNO 4095
static inline void *ERR_PTR(long e) { return (void *)e; }
static inline long PTR_ERR(const void *p) { return (long)p; }
static inline bool IS_ERR(const void *p) { return (unsigned long)p >= (unsigned long)-MAX_ERRNO; }
static inline bool IS_ERR_OR_NULL(const void *p) { return !p || IS_ERR(p); }
static inline int PTR_ERR_OR_ZERO(const void *p) { return IS_ERR(p) ? (int)PTR_ERR(p) : 0; }
static inline void *ERR_CAST(const void *p) { return (void *)p; }

/* ---- atomics ---- */
typedef struct { int counter; } atomic_t; typedef struct { s64 counter; } atomic64_t; typedef atomic64_t atomic_long_t;
typedef struct { atomic_t refs; } refcount_t;
#define ATOMIC_INIT(x) { (x) }
#define ATOMIC64_INIT(x) { (x) }
#define ATOMIC_LONG_INIT(x) { (x) }
#define REFCOUNT_INIT(x) { { (x) } }
#define KS_ATOMIC(pfx, T, V) \
static inline V pfx##_read(const T *v) { return __atomic_load_n(&v->counter, __ATOMIC_RELAXED); } \
static inline V pfx##_read_acquire(const T *v) { return __atomic_load_n(&v->counter, __ATOMIC_ACQUIRE); } \
static inline void pfx##_set(T *v, V i) { __atomic_store_n(&v->counter, i, __ATOMIC_RELAXED); } \
static inline void pfx##_set_release(T *v, V i) { __atomic_store_n(&v->counter, i, __ATOMIC_RELEASE); } \
static inline void pfx##_inc(T *v) { __atomic_fetch_add(&v->counter, 1, __ATOMIC_RELAXED); } \
static inline void pfx##_dec(T *v) { __atomic_fetch_sub(&v->counter, 1, __ATOMIC_RELAXED); } \
static inline void pfx##_add(V i, T *v) { __atomic_fetch_add(&v->counter, i, __ATOMIC_RELAXED); } \
static inline void pfx##_sub(V i, T *v) { __atomic_fetch_sub(&v->counter, i, __ATOMIC_RELAXED); } \
static inline V pfx##_inc_return(T *v) { return __atomic_add_fetch(&v->counter, 1, __ATOMIC_SEQ_CST); } \
static inline V pfx##_dec_return(T *v) { return __atomic_sub_fetch(&v->counter, 1, __ATOMIC_SEQ_CST); } \
static inline V pfx##_add_return(V i, T *v) { return __atomic_add_fetch(&v->counter, i, __ATOMIC_SEQ_CST); } \
static inline V pfx##_sub_return(V i, T *v) { return __atomic_sub_fetch(&v->counter, i, __ATOMIC_SEQ_CST); } \
static inline V pfx##_fetch_add(V i, T *v) { return __atomic_fetch_add(&v->counter, i, __ATOMIC_SEQ_CST); } \
static inline V pfx##_fetch_inc(T *v) { return __atomic_fetch_add(&v->counter, 1, __ATOMIC_SEQ_CST); } \
static inline V pfx##_fetch_dec(T *v) { return __atomic_fetch_sub(&v->counter, 1, __ATOMIC_SEQ_CST); } \
static inline bool pfx##_dec_and_test(T *v) { return __atomic_sub_fetch(&v->counter, 1, __ATOMIC_SEQ_CST) == 0; } \
static inline bool pfx##_inc_and_test(T *v) { return __atomic_add_fetch(&v->counter, 1, __ATOMIC_SEQ_CST) == 0; } \
static inline V pfx##_xchg(T *v, V n) { return __atomic_exchange_n(&v->counter, n, __ATOMIC_SEQ_CST); } \
static inline V pfx##_cmpxchg(T *v, V o, V n) { __atomic_compare_exchange_n(&v->counter, &o, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return o; }
KS_ATOMIC(atomic, atomic_t, int)
KS_ATOMIC(atomic64, atomic64_t, s64)
KS_ATOMIC(atomic_long, atomic_long_t, s64)
#define cmpxchg(p, o, n) ({ __typeof__(*(p)) _o = (o); __atomic_compare_exchange_n(p, &_o, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); _o; })
#define xchg(p, n) __atomic_exchange_n(p, n, __ATOMIC_SEQ_CST)
static inline void refcount_set(refcount_t *r, int n) { atomic_set(&r->refs, n); }
static inline void refcount_inc(refcount_t *r) { atomic_inc(&r->refs); }
static inline bool refcount_dec_and_test(refcount_t *r) { return atomic_dec_and_test(&r->refs); }
static inline unsigned refcount_read(const refcount_t *r) { return (unsigned)atomic_read(&r->refs); }

/* ---- arithmetic ---- */
static inline u64 div64_u64(u64 a, u64 b) { return a / b; }
static inline u64 div64_u64_rem(u64 a, u64 b, u64 *r) { *r = a % b; return a / b; }
static inline u64 div_u64(u64 a, u32 b) { return a / b; }
static inline u64 div_u64_rem(u64 a, u32 b, u32 *r) { *r = (u32)(a % b); return a / b; }

/* ---- strings ---- */
void memzero_explicit(void *, size_t);
static inline ssize_t ks_strscpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (!n) return -E2BIG; if (l >= n) { memcpy(d, s, n - 1); d[n - 1] = 0; return -E2BIG; } memcpy(d, s, l + 1); return (ssize_t)l; }
#define strscpy(d, s, n) ks_strscpy(d, s, n)
int scnprintf(char *, size_t, const char *, ...) __attribute__((format(printf, 3, 4)));
#define kstrtouint(s, b, r) ks_kstrtouint(s, b, r)

/* ---- memory ---- */
#define GFP_KERNEL 0xcc0u
#define GFP_NOWAIT 0x800u
#define GFP_ATOMIC 0x820u
#define GFP_KERNEL_ACCOUNT 0x400cc0u
#define __GFP_ZERO 0x100u
#define __GFP_NOWARN 0x200u
#define __GFP_NORETRY 0x1000u
void *ks_alloc(size_t n, gfp_t f, int zero); void ks_free(const void *p, size_t wipe);
static inline void *kvmalloc(size_t n, gfp_t f) { return ks_alloc(n, f, !!(f & __GFP_ZERO)); }
static inline void *kvzalloc(size_t n, gfp_t f) { return ks_alloc(n, f, 1); }
static inline void *kmalloc(size_t n, gfp_t f) { return ks_alloc(n, f, !!(f & __GFP_ZERO)); }
static inline void *kzalloc(size_t n, gfp_t f) { return ks_alloc(n, f, 1); }
static inline void *kcalloc(size_t c, size_t n, gfp_t f) { return ks_alloc(c * n, f, 1); }
static inline void *kvcalloc(size_t c, size_t n, gfp_t f) { return ks_alloc(c * n, f, 1); }
static inline void *kmalloc_array(size_t c, size_t n, gfp_t f) { return ks_alloc(c * n, f, 0); }
static inline void *kvmalloc_array(size_t c, size_t n, gfp_t f) { return ks_alloc(c * n, f, 0); }
static inline void *vmalloc(size_t n) { return ks_alloc(n, 0, 0); }
static inline void *vzalloc(size_t n) { return ks_alloc(n, 0, 1); }
static inline void kvfree(const void *p) { ks_free(p, 0); }
static inline void kfree(const void *p) { ks_free(p, 0); }
static inline void vfree(const void *p) { ks_free(p, 0); }
void ks_free_sensitive(const void *p, size_t n);
static inline void kvfree_sensitive(const void *p, size_t n) { ks_free_sensitive(p, n); }
static inline void kfree_sensitive(const void *p) { ks_free_sensitive(p, (size_t)-1); }
#define kzfree kfree_sensitive
#define kzalloc_obj(o, ...) ((__typeof__(o) *)ks_alloc(sizeof(o), GFP_KERNEL, 1))
#define kvzalloc_obj(o, ...) ((__typeof__(o) *)ks_alloc(sizeof(o), GFP_KERNEL, 1))
#define kmalloc_obj(o, ...) ((__typeof__(o) *)ks_alloc(sizeof(o), GFP_KERNEL, 0))

char *kasprintf(gfp_t, const char *, ...) __attribute__((format(printf, 2, 3)));
static inline void *kmemdup(const void *s, size_t n, gfp_t f) { void *p = ks_alloc(n, f, 0); if (p) memcpy(p, s, n); return p; }
#define kvmemdup kmemdup
static inline char *kstrdup(const char *s, gfp_t f) { return s ? kmemdup(s, strlen(s) + 1, f) : NULL; }
#define sizeof_field(T, m) sizeof(((T *)0)->m)
#define array_size(a, b) ((size_t)(a) * (size_t)(b))
#define size_mul(a, b) ((size_t)(a) * (size_t)(b))
#define size_add(a, b) ((size_t)(a) + (size_t)(b))
#define struct_size(p, m, n) (sizeof(*(p)) + sizeof((p)->m[0]) * (size_t)(n))
#define check_add_overflow(a, b, d) __builtin_add_overflow(a, b, d)
#define check_sub_overflow(a, b, d) __builtin_sub_overflow(a, b, d)
#define check_mul_overflow(a, b, d) __builtin_mul_overflow(a, b, d)
#define in_range(v, s, l) ((v) >= (s) && (v) - (s) < (l))
#define lower_32_bits(n) ((u32)((n) & 0xffffffffu))
#define upper_32_bits(n) ((u32)(((u64)(n)) >> 32))
static inline const char *str_on_off(bool v) { return v ? "on" : "off"; }
static inline const char *str_true_false(bool v) { return v ? "true" : "false"; }
static inline const char *str_yes_no(bool v) { return v ? "yes" : "no"; }
static inline const char *str_enabled_disabled(bool v) { return v ? "enabled" : "disabled"; }
static inline const char *str_enable_disable(bool v) { return v ? "enable" : "disable"; }
static inline void usleep_range(unsigned long a, unsigned long b) { }
static inline int fls(unsigned x) { return x ? 32 - __builtin_clz(x) : 0; }
static inline int ffs_(unsigned x) { return __builtin_ffs((int)x); }
static inline bool is_power_of_2(unsigned long n) { return n && !(n & (n - 1)); }

/* ---- mutexes and friends ---- */
struct list_head { struct list_head *next, *prev; };
struct lock_class_key { int x; };
struct mutex { unsigned magic; int owner; unsigned waiters; const char *name; };
#define KS_MUTEX_MAGIC 0x4d755458u
#define __MUTEX_INITIALIZER(n) { KS_MUTEX_MAGIC, -1, 0, #n }
#define DEFINE_MUTEX(n) struct mutex n = __MUTEX_INITIALIZER(n)
void ks_mutex_init(struct mutex *, const char *); void mutex_destroy(struct mutex *);
#define mutex_init(m) ks_mutex_init(m, #m)
void mutex_lock(struct mutex *); int mutex_lock_interruptible(struct mutex *); int mutex_lock_killable(struct mutex *); int mutex_trylock(struct mutex *); void mutex_unlock(struct mutex *); bool mutex_is_locked(struct mutex *);
#define mutex_lock_nested(m, s) mutex_lock(m)
#define mutex_lock_interruptible_nested(m, s) mutex_lock_interruptible(m)
#define lockdep_assert_held(m) do { if (!mutex_is_locked(m)) ks_warn("lockdep_assert_held"); } while (0)
#define might_sleep() do { } while (0)
#define __cleanup(f) __attribute__((cleanup(f)))
static inline void ks_guard_unlock(struct mutex **m) { if (*m) mutex_unlock(*m); }
static inline struct mutex *ks_guard_lock(struct mutex *m) { mutex_lock(m); return m; }
#define KS_CAT2(a, b) a##b
#define KS_CAT(a, b) KS_CAT2(a, b)
#define guard(cls) KS_GUARD_##cls
#define KS_GUARD_mutex(m) struct mutex *KS_CAT(_g, __LINE__) __attribute__((cleanup(ks_guard_unlock), unused)) = ks_guard_lock(m)
#define scoped_guard(cls, m) for (struct mutex *_sg __attribute__((cleanup(ks_guard_unlock))) = ks_guard_lock(m), *_once = (void *)1; _once; _once = NULL)
static inline struct mutex *ks_guard_intr(struct mutex *m) { return mutex_lock_interruptible(m) ? NULL : m; }
static inline struct mutex *ks_guard_try(struct mutex *m) { return mutex_trylock(m) ? m : NULL; }
#define KS_TAKE_mutex ks_guard_lock
#define KS_TAKE_mutex_intr ks_guard_intr
#define KS_TAKE_mutex_try ks_guard_try
#define scoped_cond_guard(cls, fail, m) for (struct mutex *_sg __attribute__((cleanup(ks_guard_unlock))) = KS_TAKE_##cls(m), *_once = (void *)1; _once; _once = NULL) if (!_sg) { fail; } else
static inline void ks_free_p(void *p) { ks_free(*(void **)p, 0); }
#define __free(fn) __attribute__((cleanup(ks_free_p)))
#define no_free_ptr(p) ({ __typeof__(p) _p = (p); (p) = NULL; _p; })
#define return_ptr(p) return no_free_ptr(p)
typedef struct mutex spinlock_t;
#define DEFINE_SPINLOCK(n) spinlock_t n = __MUTEX_INITIALIZER(n)
#define spin_lock_init(l) ks_mutex_init(l, #l)
#define spin_lock(l) mutex_lock(l)
#define spin_unlock(l) mutex_unlock(l)
#define spin_lock_irqsave(l, f) do { (void)(f); mutex_lock(l); } while (0)
#define spin_unlock_irqrestore(l, f) do { (void)(f); mutex_unlock(l); } while (0)

/* ---- scheduling, signals ---- */
struct task_struct { int id; };
extern struct task_struct *ks_current(void);
#define current ks_current()
int signal_pending(struct task_struct *); int fatal_signal_pending(struct task_struct *); bool need_resched(void); void schedule(void); int cond_resched(void);
static inline void cpu_relax(void) { }
void msleep(unsigned ms);
#define TASK_INTERRUPTIBLE 1
#define CAP_SYS_ADMIN 21
bool capable(int cap);
static inline bool ns_capable_any(void) { return capable(CAP_SYS_ADMIN); }

/* ---- time, workqueues ---- */
#define HZ 250
extern unsigned long ks_jiffies(void);
#define jiffies ks_jiffies()
static inline unsigned long msecs_to_jiffies(unsigned m) { return (unsigned long)m * HZ / 1000; }
static inline unsigned long secs_to_jiffies(unsigned s) { return (unsigned long)s * HZ; }
struct work_struct; typedef void (*work_func_t)(struct work_struct *);
struct work_struct { unsigned magic; work_func_t func; };
struct delayed_work { struct work_struct work; int pending, running; unsigned long due; };
struct workqueue_struct { int id; };
extern struct workqueue_struct *system_wq, *system_power_efficient_wq, *system_long_wq, *system_unbound_wq, *system_freezable_power_efficient_wq, *system_percpu_wq, *system_dfl_wq;
void ks_dwork_init(struct delayed_work *, work_func_t);
#define INIT_DELAYED_WORK(w, f) ks_dwork_init(w, f)
#define INIT_DEFERRABLE_WORK(w, f) ks_dwork_init(w, f)
static inline struct delayed_work *to_delayed_work(struct work_struct *w) { return container_of(w, struct delayed_work, work); }
bool queue_delayed_work(struct workqueue_struct *, struct delayed_work *, unsigned long); bool mod_delayed_work(struct workqueue_struct *, struct delayed_work *, unsigned long);
static inline bool schedule_delayed_work(struct delayed_work *w, unsigned long d) { return queue_delayed_work(system_wq, w, d); }
bool cancel_delayed_work_sync(struct delayed_work *); bool cancel_delayed_work(struct delayed_work *); bool flush_delayed_work(struct delayed_work *);
bool ks_dwork_pending(struct delayed_work *);
#define delayed_work_pending(w) ks_dwork_pending(w)
static inline bool disable_delayed_work_sync(struct delayed_work *w) { return cancel_delayed_work_sync(w); }

/* ---- modules ---- */
struct module { const char *name; };
extern struct module ks_this_module;
#define THIS_MODULE (&ks_this_module)
struct ks_param { const char *name; int size, isbool; void *addr; };
#define module_param_named(pub, var, ty, perm) static const struct ks_param KS_CAT(ks_param_##var, __LINE__) __attribute__((used, section("ks_params"), aligned(8))) = { #pub, (int)sizeof(var), __builtin_types_compatible_p(__typeof__(var), _Bool), (void *)&var }
#define module_param(var, ty, perm) module_param_named(var, var, ty, perm)
#define MODULE_PARM_DESC(a, b) struct ks_dummy
#define MODULE_LICENSE(x) struct ks_dummy
#define MODULE_AUTHOR(x) struct ks_dummy
#define MODULE_DESCRIPTION(x) struct ks_dummy
#define MODULE_VERSION(x) struct ks_dummy
#define MODULE_ALIAS(x) struct ks_dummy
#define MODULE_ALIAS_CRYPTO(x) struct ks_dummy
#define MODULE_IMPORT_NS(x) struct ks_dummy
#define MODULE_SOFTDEP(x) struct ks_dummy
#define EXPORT_SYMBOL(x) struct ks_dummy
#define EXPORT_SYMBOL_GPL(x) struct ks_dummy
#define module_init(f) int (*ks_mod_init)(void) = f
#define module_exit(f) void (*ks_mod_exit)(void) = f
#ifndef S_IRUSR
#define S_IRUSR 0400
#define S_IWUSR 0200
#define S_IRGRP 040
#define S_IROTH 04
#endif
#define S_IRUGO 0444
#define KERNEL_VERSION(a, b, c) (((a) << 16) + ((b) << 8) + (c))
#define LINUX_VERSION_CODE KERNEL_VERSION(6, 12, 0)
bool try_module_get(struct module *); void module_put(struct module *);

/* ---- files, devices ---- */
struct inode { void *i_private; };
struct file; struct file_operations;
struct file { void *private_data; unsigned f_flags; loff_t f_pos; const struct file_operations *f_op; struct inode *f_inode; };
struct poll_table_struct; struct vm_area_struct;
struct file_operations {
	struct module *owner;
	loff_t (*llseek)(struct file *, loff_t, int);
	ssize_t (*read)(struct file *, char __user *, size_t, loff_t *);
	ssize_t (*write)(struct file *, const char __user *, size_t, loff_t *);
	unsigned (*poll)(struct file *, struct poll_table_struct *);
	long (*unlocked_ioctl)(struct file *, unsigned int, unsigned long);
	long (*compat_ioctl)(struct file *, unsigned int, unsigned long);
	int (*open)(struct inode *, struct file *);
	int (*release)(struct inode *, struct file *);
};
long compat_ptr_ioctl(struct file *, unsigned int, unsigned long);
loff_t noop_llseek(struct file *, loff_t, int); loff_t no_llseek(struct file *, loff_t, int); loff_t default_llseek(struct file *, loff_t, int);
int nonseekable_open(struct inode *, struct file *); int stream_open(struct inode *, struct file *);
#define MISC_DYNAMIC_MINOR 255
struct miscdevice { int minor; const char *name; const struct file_operations *fops; void *parent, *this_device; const char *nodename; umode_t mode; };
int misc_register(struct miscdevice *); void misc_deregister(struct miscdevice *);
unsigned long copy_to_user(void __user *, const void *, unsigned long); unsigned long copy_from_user(void *, const void __user *, unsigned long);
#define __copy_to_user copy_to_user
#define __copy_from_user copy_from_user
unsigned long clear_user(void __user *, unsigned long);
#define u64_to_user_ptr(x) ((void __user *)(uintptr_t)(x))
#define put_user(x, p) ({ __typeof__(*(p)) _v = (x); copy_to_user(p, &_v, sizeof(_v)) ? -EFAULT : 0; })
#define get_user(x, p) ({ __typeof__(*(p)) _v; int _e = copy_from_user(&_v, p, sizeof(_v)) ? -EFAULT : 0; (x) = _v; _e; })
#define access_ok(p, n) 1
static inline void *memdup_user(const void __user *s, size_t n) { void *p = ks_alloc(n, GFP_KERNEL, 0); if (!p) return ERR_PTR(-ENOMEM); if (copy_from_user(p, s, n)) { ks_free(p, 0); return ERR_PTR(-EFAULT); } return p; }

#define _IOC_NRBITS 8
#define _IOC_TYPEBITS 8
#define _IOC_SIZEBITS 14
#define _IOC_NRSHIFT 0
#define _IOC_TYPESHIFT 8
#define _IOC_SIZESHIFT 16
#define _IOC_DIRSHIFT 30
#define _IOC(d, t, n, s) (((unsigned)(d) << 30) | ((unsigned)(t) << 8) | (n) | ((unsigned)(s) << 16))
#define _IO(t, n) _IOC(0U, t, n, 0)
#define _IOR(t, n, s) _IOC(2U, t, n, sizeof(s))
#define _IOW(t, n, s) _IOC(1U, t, n, sizeof(s))
#define _IOWR(t, n, s) _IOC(3U, t, n, sizeof(s))
#define _IOC_SIZE(n) (((n) >> 16) & 0x3fff)
#define _IOC_NR(n) ((n) & 0xff)
#define _IOC_TYPE(n) (((n) >> 8) & 0xff)

/* ---- proc, seq_file, debugfs ---- */
struct seq_file { char *buf; size_t size, count; void *private; };
void seq_puts(struct seq_file *, const char *); void seq_putc(struct seq_file *, char); void seq_printf(struct seq_file *, const char *, ...) __attribute__((format(printf, 2, 3))); int seq_write(struct seq_file *, const void *, size_t);
void seq_put_decimal_ull(struct seq_file *, const char *, unsigned long long);
struct proc_dir_entry;
struct proc_dir_entry *proc_mkdir(const char *, struct proc_dir_entry *);
struct proc_dir_entry *proc_create_single_data(const char *, umode_t, struct proc_dir_entry *, int (*)(struct seq_file *, void *), void *);
#define proc_create_single(n, m, p, s) proc_create_single_data(n, m, p, s, NULL)
void proc_remove(struct proc_dir_entry *); void remove_proc_entry(const char *, struct proc_dir_entry *); int remove_proc_subtree(const char *, struct proc_dir_entry *);
struct dentry;
struct dentry *debugfs_create_dir(const char *, struct dentry *);
struct dentry *debugfs_create_file(const char *, umode_t, struct dentry *, void *, const struct file_operations *);
struct dentry *debugfs_create_file_unsafe(const char *, umode_t, struct dentry *, void *, const struct file_operations *);
void debugfs_remove_recursive(struct dentry *);
#define debugfs_remove(d) debugfs_remove_recursive(d)
enum lockdown_reason { LOCKDOWN_NONE, LOCKDOWN_MODULE_SIGNATURE, LOCKDOWN_DEV_MEM, LOCKDOWN_DEBUGFS, LOCKDOWN_INTEGRITY_MAX, LOCKDOWN_KCORE, LOCKDOWN_CONFIDENTIALITY_MAX };
int security_locked_down(enum lockdown_reason);

/* ---- hwrng ---- */
struct hwrng { const char *name; int (*init)(struct hwrng *); void (*cleanup)(struct hwrng *); int (*data_present)(struct hwrng *, int); int (*data_read)(struct hwrng *, u32 *); int (*read)(struct hwrng *, void *, size_t, bool); unsigned long priv; unsigned short quality; };
int hwrng_register(struct hwrng *); void hwrng_unregister(struct hwrng *);

/* ---- crypto ---- */
struct crypto_tfm { void *ctx; };
struct crypto_rng { struct crypto_tfm base; };
struct crypto_alg { const char *cra_name, *cra_driver_name; int cra_priority; unsigned cra_ctxsize, cra_flags, cra_blocksize, cra_alignmask; struct module *cra_module; int (*cra_init)(struct crypto_tfm *); void (*cra_exit)(struct crypto_tfm *); };
struct rng_alg { int (*generate)(struct crypto_rng *, const u8 *, unsigned, u8 *, unsigned); int (*seed)(struct crypto_rng *, const u8 *, unsigned); void (*set_ent)(struct crypto_rng *, const u8 *, unsigned); unsigned seedsize; struct crypto_alg base; };
static inline void *crypto_tfm_ctx(struct crypto_tfm *t) { return t->ctx; }
static inline void *crypto_rng_ctx(struct crypto_rng *r) { return r->base.ctx; }
static inline struct crypto_tfm *crypto_rng_tfm(struct crypto_rng *r) { return &r->base; }
int crypto_register_rng(struct rng_alg *); void crypto_unregister_rng(struct rng_alg *);
int crypto_register_rngs(struct rng_alg *, int); void crypto_unregister_rngs(struct rng_alg *, int);

/* ---- ratelimit ---- */
struct ratelimit_state { int n; };
#define DEFAULT_RATELIMIT_INTERVAL (5 * HZ)
#define DEFAULT_RATELIMIT_BURST 10
#define DEFINE_RATELIMIT_STATE(n, i, b) struct ratelimit_state n = { 0 }
int __ratelimit(struct ratelimit_state *);

/* ---- CPUs, random ---- */
unsigned num_online_cpus(void); void cpus_read_lock(void); void cpus_read_unlock(void);
int ks_next_online(int cpu);
#define for_each_online_cpu(c) for ((c) = ks_next_online(-1); (c) >= 0; (c) = ks_next_online(c))
int smp_call_function_single(int cpu, void (*f)(void *), void *info, int wait);
struct cpuinfo_x86 { int cpuid_level; u32 extended_cpuid_level; };
extern struct cpuinfo_x86 boot_cpu_data;
void cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
void get_random_bytes(void *, size_t);
u64 ktime_get_ns(void);
#endif
