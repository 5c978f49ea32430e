/*
 * The simulated clock.  In lockstep runs the reference model asks for the
 * time stamps of one measurement at a time and the clock may steer the health
 * test counters (as seen by the model) to their cutoffs.
 */
#include "sim.h"
#include "model.h"
#include "clock.h"

uint64_t clk_now, clk_span;
uint64_t *tq; size_t tq_n, tq_cap, tq_r;
static rng_t crng;
static int cur_op; static long op_meas;
long clk_meas_total, clk_limit = 700000; static long clk_cost;
int clk_overrun;

void clk_init(void) { clk_now = P.t0; crng.s = P.clkseed; }
void clk_op(int id) { cur_op = id; op_meas = 0; tq_n = tq_r = 0; }
static void push(uint64_t v)
{
	if (tq_n == tq_cap) { tq_cap = tq_cap ? tq_cap * 2 : 65536; tq = realloc(tq, tq_cap * 8); }
	tq[tq_n++] = v;
}
static uint64_t fresh(mec *e, rng_t *r)
{
	uint64_t h0 = m_hist_val(e, 0), h1 = m_hist_val(e, 1), d;
	do d = (uint64_t)P.base + rng_n(r, (uint64_t)P.spread) + 1;
	while (d == h0 || d == 2 * h0 - h1 || d == e->apt_base || d == m_hist_val(e, e->lag_best) || !d);
	return d;
}
static uint64_t normal(rng_t *r) { return ((uint64_t)P.base + rng_n(r, (uint64_t)P.spread) + 1); }

static seg_t *active(void)
{
	for (int i = 0; i < P.nseg; i++) {
		seg_t *s = &P.seg[i];
		if (s->op == cur_op && !s->done && op_meas >= s->skip && op_meas < s->skip + s->n) return s;
	}
	return NULL;
}
/* returns the delta in units of the instance's divisor; *mode: 0 relative to the previous stamp, 1 absolute value */
static uint64_t steer(mec *e, seg_t *s, int *mode)
{
	rng_t r = { s->seed + (uint64_t)s->used * 0x1234567ULL };
	uint64_t h0 = m_hist_val(e, 0), h1 = m_hist_val(e, 1);
	unsigned tgt;

	s->used++;
	*mode = 0;
	switch (s->kind) {
	case 1: return 0;
	case 2: return h0 ? h0 : 1;
	case 3: { uint64_t d = 2 * h0 - h1; return d && d < 1ULL << 60 ? d : h0 + 1; }
	case 4:
		tgt = (s->a ? e->rct_pcut : e->rct_cut) + (unsigned)(int)s->b;
		if (e->rct >= tgt) { s->done = 1; return fresh(e, &r); }
		switch (rng_n(&r, 3)) { case 0: return 0; case 1: return h0 ? h0 : 0; default: { uint64_t d = 2 * h0 - h1; return d < 1ULL << 60 ? d : 0; } }
	case 5:
		tgt = (s->a ? e->apt_pcut : e->apt_cut) + (unsigned)(int)s->b;
		if (!e->apt_open) return fresh(e, &r);
		if (e->apt_n >= tgt) { s->done = 1; return fresh(e, &r); }
		if (e->apt_n + (512 - e->apt_obs) < tgt) return fresh(e, &r);	/* cannot make it in this window */
		if (e->rct + 2 >= e->rct_cut || e->lag_run + 2 >= e->ll) return fresh(e, &r);
		return e->apt_base;
	case 6: {
		unsigned per = 3 + (unsigned)(s->seed % 6);
		tgt = (s->a & 1 ? (s->a & 2 ? e->lgp : e->llp) : (s->a & 2 ? e->lg : e->ll)) + (unsigned)(int)s->b;
		if (s->a & 2) {
			if (e->lag_hits >= tgt) { s->done = 1; return fresh(e, &r); }
			if (e->lag_run + 2 >= e->ll) return fresh(e, &r);
		} else if (e->lag_run >= tgt) { s->done = 1; return s->a & 4 ? m_hist_val(e, e->lag_best) : fresh(e, &r); }
		rng_t q = { s->seed + (uint64_t)((unsigned)(s->used) % per) * 7919 };
		return (uint64_t)P.base + 5000 + (rng_next(&q) & 0xffff);
	}
	case 7:
		tgt = (s->a ? e->mempcut : e->memcut) + (unsigned)(int)s->b;
		if (e->memcnt >= tgt && e->memctr) { s->done = 1; return fresh(e, &r); }
		if (e->memctr % 3 == 0 && e->memctr < e->memwin) return h0 ? h0 : 0;
		return fresh(e, &r);
	case 8: *mode = 1; return e->prev > (uint64_t)s->b + 2 ? e->prev - (uint64_t)s->b - 1 : 1;
	case 9: *mode = 1; return 0;
	case 10: return 1ULL << (40 + rng_n(&r, 22));
	case 11: return s->a > 0 ? (uint64_t)s->a : 7;
	case 12: return (uint64_t)P.base + ((s->used & 1) ? (uint64_t)s->a : (uint64_t)s->b) + 3;
	case 13: *mode = 1; s->done = 1; return (uint64_t)-1 - (uint64_t)(s->a & 0xfffff);
	case 14: { /* coarse clock: absolute granularity */
		uint64_t g = s->a > 1 ? (uint64_t)s->a : 1000; *mode = 1;
		uint64_t t = clk_now + normal(&r); t -= t % g; return t ? t : g; }
	case 15: return (uint64_t)(s->a > 0 ? s->a : 1) + rng_n(&r, (uint64_t)(s->b > 0 ? s->b : 2));
	case 16: /* stuck except every k-th */
		if (s->used % (s->a > 1 ? s->a : 2) == 0) return fresh(e, &r);
		return h0 ? h0 : 0;
	case 17: /* stutter: coarse deltas, frequent repeats */
		return (uint64_t)P.base + rng_n(&r, (uint64_t)(s->b > 1 ? s->b : 3));
	case 18: return fresh(e, &r);
	/* persistent misbehaviour: once a counter has reached its intermittent cutoff, keep it going */
	case 19:
		if (e->rct < e->rct_cut) return fresh(e, &r);
		if (e->rct >= e->rct_pcut + (unsigned)(int)s->b) { s->done = 1; return fresh(e, &r); }
		return rng_n(&r, 2) ? 0 : h0;
	case 20:
		if (!e->apt_open || e->apt_n < e->apt_cut) return fresh(e, &r);
		if (e->apt_n >= e->apt_pcut + (unsigned)(int)s->b) { s->done = 1; return fresh(e, &r); }
		if (e->rct + 2 >= e->rct_cut && s->a) return fresh(e, &r);
		return e->apt_base;
	case 21:
		if (e->lag_run + 1 < e->ll) return fresh(e, &r);
		if (e->lag_run >= e->llp + (unsigned)(int)s->b) { s->done = 1; return fresh(e, &r); }
		return m_hist_val(e, e->lag_best);
	case 22:
		if (e->memcnt + 1u < e->memcut) return fresh(e, &r);
		if (e->memcnt >= e->mempcut + (unsigned)(int)s->b) { s->done = 1; return fresh(e, &r); }
		return e->memctr % 3 == 0 ? h0 : fresh(e, &r);
	case 23: { /* equal to what the test looks for in the low bits only */
		static const int shs[] = { 8, 16, 16, 24, 31, 32, 32, 48 };
		int sh = shs[s->seed & 7]; uint64_t lo = s->a == 0 ? e->apt_base : s->a == 1 ? h0 : m_hist_val(e, e->lag_best);
		if (s->a == 0 && !e->apt_open) return fresh(e, &r);
		return (lo & ((1ULL << sh) - 1)) + ((1 + rng_n(&r, sh > 40 ? 7 : 1000)) << sh);
	}
	case 24: { /* a predictable stretch across the end of the lag test's window, too short on either side of it */
		unsigned per = 3 + (unsigned)(s->seed % 6), rem = (1u << 17) - e->lag_obs;
		static const int mars[16] = { 0, 0, 0, 0, 0, 0, 1, 1, -1, -1, 2, 3, 4, 5, 6, 7 }; int mar = mars[s->seed >> 16 & 15];
		if (e->lag_obs >= 64 && rem > e->ll + 200 + (unsigned)s->a) { if (s->b & 1 << 20) s->done = 1; return fresh(e, &r); }
		if (e->lag_obs < 64) {
			s->b |= 1 << 20;
			if (s->seed >> 24 & 1) {	/* repetitions: what the first guess of a window predicts */
				if (e->lag_obs < 8) return fresh(e, &r);
				if (e->lag_obs > 12u + (unsigned)(mar < 1 ? 1 : mar) || e->rct + 2 >= e->rct_cut) { s->done = 1; return fresh(e, &r); }
				return h0;
			}
		} else {
			if ((int)rem == (int)e->ll - mar) return fresh(e, &r);
			if ((int)rem < (int)e->ll - mar) return m_hist_val(e, e->lag_best);
			if (e->lag_run + 2 >= e->ll) return fresh(e, &r);
		}
		if ((s->b & 1 << 20) && e->lag_obs > 16 && e->lag_obs < 512 && e->lag_run + 2 >= e->ll) { s->done = 1; return fresh(e, &r); }
		rng_t q = { s->seed + (uint64_t)((unsigned)(s->used) % per) * 7919 };
		return (uint64_t)P.base + 5000 + (rng_next(&q) & 0xffff);
	}
	case 25: *mode = 2; return (uint64_t)s->a * (1 + rng_n(&r, (uint64_t)(s->b > 0 ? s->b : 9)));
	case 26: { /* start-up test: the differences of successive deltas add up to exactly s->a */
		static uint64_t sum, d; long i = op_meas - 101, left;
		*mode = 2;
		if (i <= 0) { sum = 0; d = (uint64_t)s->b + rng_n(&r, 50); return d; }
		left = 1023 - i;
		if (i >= 1023) { uint64_t j = (uint64_t)s->a > sum ? (uint64_t)s->a - sum : 0; sum += j; d += j; return d; }
		if (sum < (uint64_t)s->a && rng_n(&r, (uint64_t)left + 1) < (uint64_t)s->a - sum) { int up = rng_n(&r, 2) || d < 20; d = up ? d + 1 : d - 1; sum++; }
		return d;
	}
	default: return normal(&crng);
	}
}

void env_time(enum tkind k, int mix, int nout, uint64_t *out)
{
	mec *e = m_cur;
	seg_t *s = active();
	int mode = 0;
	uint64_t d, g = e->gcd ? e->gcd : 1, unit = g;

	clk_meas_total++;
	clk_cost += 2 + (long)e->hashloops * (k == TK_SHA3 ? 3 : 1);
	if (clk_cost > (P.budget > 0 ? P.budget : clk_limit)) { clk_overrun = 1; viol("plan-too-long", "simulated measurement budget exhausted"); }
	if (!MP.gcd_set) unit = (uint64_t)P.gran;
	if (s) d = steer(e, s, &mode); else d = 0;
	op_meas++;

	uint64_t start = k == TK_NORMAL ? clk_now : clk_now + (uint64_t)P.gran * 3;
	uint64_t end;
	if (mode == 1) end = d;
	else if (mode == 2) end = (k == TK_NORMAL ? e->prev : start) + d * g;
	else if (s) end = (k == TK_NORMAL ? e->prev : start) + d * unit;
	else end = (k == TK_NORMAL ? clk_now : start) + normal(&crng) * (uint64_t)P.gran;
	for (int i = 0; i < mix; i++) {
		uint64_t m = mode == 1 || s ? start + ((end - start) / 20) * (uint64_t)(i + 1) : start + (end - start) * (uint64_t)(i + 1) / 20;
		if (end < start) m = start;
		push(m);
	}
	if (nout == 2) { out[0] = start; out[1] = end; push(start); push(end); }
	else { out[0] = end; push(end); }
	if (end > clk_now) clk_span += end - clk_now < 1ULL << 40 ? end - clk_now : 0;
	clk_now = end;
}
/* free-running clock, when the library reads beyond what the model expects */
uint64_t clk_free(void) { clk_now += normal(&crng) * (uint64_t)P.gran; return clk_now; }
