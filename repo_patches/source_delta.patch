From 24ace8c5d723740a318b980c393966182453b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:45 +0000
Subject: [PATCH 1/5] fix: hand out collectors only after all startup tests
 passed

jent_entropy_init_common_pre() marked the self tests as run before the timer
tests even started, and kept the mark when the GCD self test failed (EMEM) or
when a repeated known answer test failed. A later - or concurrent - allocation
then skipped the tests altogether and sampled a timer nobody had vetted.
---
 src/jitterentropy-base.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 142a82b..fba2845 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -624,8 +624,14 @@ unsigned int jent_hashloop_cnt(unsigned int flags)
  */
 static int jent_selftest_run = 0;
 
+/*
+ * @param[in] tested Whether the startup self tests must have passed. Only the
+ *		     tests themselves allocate without that condition: their
+ *		     verdict is not known until they complete.
+ */
 static struct rand_data
-*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+*jent_entropy_collector_alloc_common(unsigned int osr, unsigned int flags,
+				     int tested)
 {
 	struct rand_data *entropy_collector;
 	uint32_t memsize = 0;
@@ -658,7 +664,7 @@ static struct rand_data
 		return NULL;
 
 	/* Force the self test to be run */
-	if (!jent_atomic_load_int(&jent_selftest_run) &&
+	if (tested && !jent_atomic_load_int(&jent_selftest_run) &&
 	    jent_entropy_init_ex(osr, flags))
 		return NULL;
 
@@ -779,6 +785,12 @@ err:
 	return NULL;
 }
 
+static struct rand_data
+*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+{
+	return jent_entropy_collector_alloc_common(osr, flags, 1);
+}
+
 static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 						       unsigned int flags)
 {
@@ -981,7 +993,7 @@ int jent_time_entropy_init(unsigned int osr, unsigned int flags)
 	 * are really bad.
 	 */
 	flags |= JENT_FORCE_FIPS;
-	ec = jent_entropy_collector_alloc_internal(osr, flags);
+	ec = jent_entropy_collector_alloc_common(osr, flags, 0);
 	if (!ec) {
 		ret = EMEM;
 		goto out;
@@ -1163,18 +1175,17 @@ static inline int jent_entropy_init_common_pre(unsigned int flags)
 	if (ret)
 		return ret;
 
-	ret = jent_gcd_selftest(flags);
-
-	jent_atomic_store_int(&jent_selftest_run, 1);
-
-	return ret;
+	return jent_gcd_selftest(flags);
 }
 
 static inline int jent_entropy_init_common_post(int ret)
 {
-	/* Unmark the execution of the self tests if they failed. */
-	if (ret)
-		jent_atomic_store_int(&jent_selftest_run, 0);
+	/*
+	 * Mark the self tests as passed only once all of them completed, and
+	 * unmark them if any of them failed: until then an allocation has to
+	 * run them itself.
+	 */
+	jent_atomic_store_int(&jent_selftest_run, !ret);
 
 	return ret;
 }
@@ -1202,7 +1213,7 @@ int jent_entropy_init(void)
 	int ret = jent_entropy_init_common_pre(0);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
@@ -1230,7 +1241,7 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	ret = jent_entropy_init_common_pre(flags);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	/*
 	 * NTG.1 forbids the internal timer, and the collector allocation
-- 
2.43.0


From eedc0e09fb1f7248ef606837edba057171873596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:45 +0000
Subject: [PATCH 2/5] fix: keep a failed self test across the health failure
 reset

jent_health_failure_reset() replaced the collector without carrying
selftest_failed over, so an instance put permanently out of service by
jent_selftest() delivered data again after the next recovery.
---
 src/jitterentropy-base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index fba2845..7c649e3 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -447,6 +447,9 @@ static int jent_health_failure_reset(
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
 
+	/* A failed self test is permanent for the instance. */
+	new_ec->selftest_failed |= (*ec)->selftest_failed;
+
 	jent_entropy_collector_free(*ec);
 	*ec = new_ec;
 
-- 
2.43.0


From 0e7f849c0678781cebd92e23228bca13b84bae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:45 +0000
Subject: [PATCH 3/5] fix: make selftest_failed the full word its comment
 promises

As a bit-field it shares its storage unit with in_recovery and
startup-time flags: a concurrent update of a neighbor could undo the mark set
by a self test on another thread.
---
 src/jitterentropy-internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index e962148..30a5bcc 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed:1;
+	unsigned int selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From 45af37c1a24295a726ec2a0b1c5711ecc23d9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:14 +0000
Subject: [PATCH 4/5] fix: establish the common timer divisor in one step

A thread losing the claim on the divisor returned from its startup tests
before the winner had stored the value. A collector it allocated in that
window found no divisor established and used one for its whole life, while
every other collector scaled its deltas. Publish the value with a single
compare and exchange, so it is established for every thread that gets past
the analysis.
---
 arch/jitterentropy-arch-atomic.c | 32 ++++++++++-------
 arch/jitterentropy-arch-atomic.h | 11 +++---
 src/jitterentropy-gcd.c          | 61 ++++++++++++--------------------
 3 files changed, 48 insertions(+), 56 deletions(-)

diff --git a/arch/jitterentropy-arch-atomic.c b/arch/jitterentropy-arch-atomic.c
index 510b904..bba1e62 100644
--- a/arch/jitterentropy-arch-atomic.c
+++ b/arch/jitterentropy-arch-atomic.c
@@ -59,9 +59,9 @@
  *
  * The dispatch is:
  *   - Linux kernel                -> smp_load_acquire() / smp_store_release()
- *                                    and xchg()
+ *                                    and cmpxchg()
  *   - GCC / Clang (any target,    -> __atomic_load_n() / __atomic_store_n() /
- *     the FreeBSD kernel and the      __atomic_exchange_n() with
+ *     the FreeBSD kernel and the      __atomic_compare_exchange_n() with
  *     baremetal builds included)      __ATOMIC_ACQUIRE / _RELEASE / _ACQ_REL
  *   - MSVC                        -> the Interlocked intrinsics
  *   - anything else               -> volatile access
@@ -105,9 +105,9 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 	smp_store_release(ptr, val);
 }
 
-int jent_atomic_exchange_int(int *ptr, int val)
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val)
 {
-	return xchg(ptr, val);
+	return cmpxchg(ptr, old, val);
 }
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr)
@@ -145,16 +145,20 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 /*
  * The one read-modify-write, and on aarch64 the one place a freestanding build
  * can come apart: GCC 10 and later default to -moutline-atomics there, which
- * compiles this into a call to a libgcc helper - __aarch64_swp4_acq_rel - that
+ * compiles this into a call to a libgcc helper - __aarch64_cas4_acq_rel - that
  * chooses between the LSE and the LL/SC form at run time through an ifunc. A
  * -nostdlib link has no libgcc, the symbol stays undefined, and the first call
  * jumps into nothing. Such a build wants -mno-outline-atomics, as the kernel
  * uses for the same reason; see the note beside JENT_BAREMETAL in
  * jitterentropy.h.
  */
-int jent_atomic_exchange_int(int *ptr, int val)
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val)
 {
-	return __atomic_exchange_n(ptr, val, __ATOMIC_ACQ_REL);
+	/* Left alone on success, updated to what was found otherwise. */
+	(void)__atomic_compare_exchange_n(ptr, &old, val, 0, __ATOMIC_ACQ_REL,
+					  __ATOMIC_ACQUIRE);
+
+	return old;
 }
 
 /* The builtins take any scalar, a pointer to a function included. */
@@ -207,9 +211,10 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 	(void)_InterlockedExchange((volatile long *)ptr, (long)val);
 }
 
-int jent_atomic_exchange_int(int *ptr, int val)
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val)
 {
-	return (int)_InterlockedExchange((volatile long *)ptr, (long)val);
+	return (int)_InterlockedCompareExchange((volatile long *)ptr,
+						(long)val, (long)old);
 }
 
 /*
@@ -259,13 +264,14 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 }
 
 /* Not atomic at all here - see the note on this fallback above. */
-int jent_atomic_exchange_int(int *ptr, int val)
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val)
 {
-	int old = *(volatile int *)ptr;
+	int cur = *(volatile int *)ptr;
 
-	*(volatile int *)ptr = val;
+	if (cur == old)
+		*(volatile int *)ptr = val;
 
-	return old;
+	return cur;
 }
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr)
diff --git a/arch/jitterentropy-arch-atomic.h b/arch/jitterentropy-arch-atomic.h
index d928a25..2d536b9 100644
--- a/arch/jitterentropy-arch-atomic.h
+++ b/arch/jitterentropy-arch-atomic.h
@@ -72,10 +72,11 @@
  * jent_selftest_run stands for the timer GCD and the switch blocks established
  * with it.
  *
- * jent_atomic_exchange_int() is the one read-modify-write, and it exists for
- * the one place that has to know whether it was the thread that set a latch:
- * the common timer GCD is a 64-bit value, and a claim taken on a 32-bit flag
- * lets exactly one thread write it - which keeps these helpers to the widths
+ * jent_atomic_cmpxchg_int() is the one read-modify-write, and it exists for the
+ * one place that must not replace what another thread established: the common
+ * timer GCD. It sets the value if it is still the expected old one and returns
+ * what it found, so exactly one of several threads establishes the divisor and
+ * none of them continues before it is established. The divisor fits the int
  * every target has a lock-free access for. A 64-bit atomic would be a call
  * into libatomic on the 32-bit platforms that cannot do one inline.
  *
@@ -116,7 +117,7 @@ void jent_atomic_store_int(int *ptr, int val);
 uint32_t jent_atomic_load_u32(uint32_t *ptr);
 void jent_atomic_store_u32(uint32_t *ptr, uint32_t val);
 
-int jent_atomic_exchange_int(int *ptr, int val);
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val);
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr);
 void jent_atomic_store_fnptr(jent_fnptr *ptr, jent_fnptr val);
diff --git a/src/jitterentropy-gcd.c b/src/jitterentropy-gcd.c
index e5e2169..cfb8ca3 100644
--- a/src/jitterentropy-gcd.c
+++ b/src/jitterentropy-gcd.c
@@ -22,34 +22,20 @@
 #include "jitterentropy-gcd.h"
 #include "jitterentropy-internal.h"
 
-/* The common divisor for all timestamp deltas */
-static uint64_t jent_common_timer_gcd = 0;
-
 /*
- * The divisor above is established once per process and read by every
- * collector allocated afterwards, from whichever thread allocates it. It is
- * 64 bits wide, which not every 32-bit platform can load or store atomically
- * without a call into libatomic, so it is published through two 32-bit flags
- * instead (see arch/jitterentropy-arch-atomic.h):
+ * The common divisor for all timestamp deltas, zero until it is established.
  *
- *   - claimed is taken with an exchange, so of several threads analyzing at
- *     once exactly one writes the value - they measure their own deltas and
- *     need not arrive at the same divisor, so "they would write the same
- *     thing" does not hold here, and
- *   - set is stored with release after that write and loaded with acquire
- *     before every read, so a reader that is told the divisor is established
- *     also sees the value that was established.
+ * It is established once per process and read by every collector allocated
+ * afterwards, from whichever thread allocates it. jent_gcd_analyze() rejects
+ * anything that does not fit an int, so the value is its own flag: it is set
+ * with a compare and exchange, and of several threads analyzing at once exactly
+ * one sets it - they measure their own deltas and need not arrive at the same
+ * divisor, so "they would write the same thing" does not hold here.
  *
- * A thread that loses the claim carries on with the divisor of the thread that
- * won it, which is the behaviour a second caller has always had.
+ * A thread that comes second carries on with the divisor of the thread that
+ * came first, which is established by the time it is told so.
  */
-static int jent_common_timer_gcd_claimed = 0;
-static int jent_common_timer_gcd_set = 0;
-
-static inline int jent_gcd_tested(void)
-{
-	return jent_atomic_load_int(&jent_common_timer_gcd_set);
-}
+static int jent_common_timer_gcd = 0;
 
 /* A straight forward implementation of the Euclidean algorithm for GCD. */
 static inline uint64_t jent_gcd64(uint64_t a, uint64_t b)
@@ -146,19 +132,16 @@ int jent_gcd_analyze(uint64_t *delta_history, size_t nelem, size_t osr)
 	/*
 	 * Adjust all deltas by the observed (small) common factor.
 	 *
-	 * A zero divisor is not established, as it was not while the flag was
-	 * the value itself: every caller of jent_gcd_get() divides by what it
-	 * is given, and the "not established yet" answer is what makes it use
-	 * a divisor of one instead. It takes an all-zero delta history to
-	 * arrive here with one, which the variation check above rejects before
-	 * this point - the guard states the invariant rather than covering a
-	 * reachable case.
+	 * A zero divisor is not established: every caller of jent_gcd_get()
+	 * divides by what it is given, and the "not established yet" answer is
+	 * what makes it use a divisor of one instead. It takes an all-zero
+	 * delta history to arrive here with one, which the variation check
+	 * above rejects before this point - the guard states the invariant
+	 * rather than covering a reachable case.
 	 */
-	if (running_gcd && !jent_gcd_tested() &&
-	    !jent_atomic_exchange_int(&jent_common_timer_gcd_claimed, 1)) {
-		jent_common_timer_gcd = running_gcd;
-		jent_atomic_store_int(&jent_common_timer_gcd_set, 1);
-	}
+	if (running_gcd)
+		jent_atomic_cmpxchg_int(&jent_common_timer_gcd, 0,
+					(int)running_gcd);
 
 out:
 	return ret;
@@ -183,10 +166,12 @@ void jent_gcd_fini(uint64_t *delta_history, size_t nelem)
 
 int jent_gcd_get(uint64_t *value)
 {
-	if (!jent_gcd_tested())
+	int gcd = jent_atomic_load_int(&jent_common_timer_gcd);
+
+	if (!gcd)
 		return 1;
 
-	*value = jent_common_timer_gcd;
+	*value = (uint64_t)gcd;
 	return 0;
 }
 
-- 
2.43.0


From 4fecee10879e4eb5f0929f55335f3a534da54c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:24 +0000
Subject: [PATCH 5/5] fix: do not read a registered handler's context as the
 builtin one

The counting thread took the CPU to pin itself to from the thread context,
which only the builtin handler lays out that way. With a handler registered
through jent_entropy_switch_notime_impl() the context is the caller's own:
the read could run past its end, and whatever it found was the CPU the
thread was moved to. Use the context for the builtin handler only and the
configured CPU, if there is one, for any other.
---
 src/jitterentropy-timer.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jitterentropy-timer.c b/src/jitterentropy-timer.c
index ce5e33a..1103452 100644
--- a/src/jitterentropy-timer.c
+++ b/src/jitterentropy-timer.c
@@ -198,15 +198,24 @@ static int jent_notime_sample_timer(void *arg)
 #endif
 {
 	struct rand_data *ec = (struct rand_data *)arg;
-	struct jent_notime_ctx *thread_ctx =
-		(struct jent_notime_ctx *)ec->notime_thread_ctx;
 
 	/*
 	 * Best-effort pin to a dedicated CPU; a failure here is ignored as
 	 * the counter still ticks on whatever CPU the scheduler picks.
+	 *
+	 * The context names that CPU only when the builtin handler created it.
+	 * The context of a registered handler is opaque: its thread goes to the
+	 * CPU the caller configured, if any, and is otherwise left alone.
 	 */
-	if (thread_ctx)
-		(void)jent_thread_pin_to_cpu(thread_ctx->notime_cpu);
+	if (notime_thread == &jent_notime_thread_builtin) {
+		struct jent_notime_ctx *thread_ctx =
+			(struct jent_notime_ctx *)ec->notime_thread_ctx;
+
+		if (thread_ctx)
+			(void)jent_thread_pin_to_cpu(thread_ctx->notime_cpu);
+	} else if (jent_notime_cpu_configured) {
+		(void)jent_thread_pin_to_cpu(jent_notime_cpu);
+	}
 
 	ec->notime_timer = 0;
 
-- 
2.43.0

