#include "sim.h"
#include <stdarg.h>
plan_t P;
void sb(sb_t *s, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	char tmp[512]; int n = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
	if (s->n + (size_t)n + 1 > s->cap) { s->cap = (s->cap + (size_t)n + 1) * 2; s->b = realloc(s->b, s->cap); }
	memcpy(s->b + s->n, tmp, (size_t)n + 1); s->n += (size_t)n;
}
static void cfg_set(const char *k, const char *v)
{
	long x = strtol(v, NULL, 0);
#define C(nm) if (!strcmp(k, #nm)) { P.nm = x; return; }
	C(ncpu) C(fips) C(l1) C(l2) C(l3) C(sysfs) C(gran) C(base) C(spread) C(cbact) C(mlockmode) C(budget)
	C(schedp) C(aff_sparse) C(nthr) C(pin) C(rndmode) C(quantum) C(pct) C(sysfsl3) C(rv) C(work)
#undef C
	if (!strcmp(k, "clkseed")) P.clkseed = strtoull(v, NULL, 0);
	else if (!strcmp(k, "t0")) P.t0 = strtoull(v, NULL, 0);
	else if (!strcmp(k, "schedseed")) P.schedseed = strtoull(v, NULL, 0);
	else if (!strcmp(k, "prop")) snprintf(P.prop, sizeof P.prop, "%s", v);
	else if (P.nkv < 40) { snprintf(P.kv[P.nkv].k, sizeof P.kv[0].k, "%s", k); P.kv[P.nkv++].v = x; }
}
long cfgl(const char *k, long def) { for (int i = 0; i < P.nkv; i++) if (!strcmp(P.kv[i].k, k)) return P.kv[i].v; return def; }
int plan_parse(const char *txt)
{
	memset(&P, 0, sizeof P);
	P.ncpu = 1; P.gran = 1; P.base = 20000; P.spread = 4096; P.l1 = 32768; P.t0 = 1000000; P.schedp = 50; P.pin = -1; P.quantum = 400;
	strcpy(P.sim, "seq");
	char *dup = strdup(txt), *save = NULL;
	for (char *l = strtok_r(dup, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
		char w[16]; int off = 0;
		if (l[0] == '#' || sscanf(l, "%15s %n", w, &off) < 1) continue;
		char *r = l + off;
		if (!strcmp(w, "sim")) sscanf(r, "%15s", P.sim);
		else if (!strcmp(w, "cfg")) {
			char *s2 = NULL;
			for (char *t = strtok_r(r, " ", &s2); t; t = strtok_r(NULL, " ", &s2)) {
				char *eq = strchr(t, '='); if (!eq) continue;
				*eq = 0; cfg_set(t, eq + 1);
			}
		} else if (!strcmp(w, "op") && P.nop < 512) {
			op_t *o = &P.op[P.nop]; int p1 = 0;
			if (sscanf(r, "%d %d %15s %n", &o->id, &o->thr, o->name, &p1) < 3) continue;
			char *q = r + p1, *end;
			while (*q && o->na < 6) { long v = strtol(q, &end, 0); if (end == q) break; o->a[o->na++] = v; q = end; }
			P.nop++;
		} else if (!strcmp(w, "seg") && P.nseg < 512) {
			seg_t *s = &P.seg[P.nseg]; long long a, b; unsigned long long sd;
			if (sscanf(r, "%d %ld %ld %d %lld %lld %llu", &s->op, &s->skip, &s->n, &s->kind, &a, &b, &sd) != 7) continue;
			s->a = a; s->b = b; s->seed = sd; P.nseg++;
		} else if (!strcmp(w, "fault") && P.nf < 512) {
			fault_t *f = &P.f[P.nf];
			if (sscanf(r, "%15s %d %ld %ld %ld", f->kind, &f->op, &f->ord, &f->cnt, &f->val) != 5) continue;
			P.nf++;
		} else if (!strcmp(w, "sched")) {
			P.explicit_sched = 1;
		} else if (!strcmp(w, "pre") && P.npre < MAXLINES) {
			if (sscanf(r, "%ld %d", &P.pre[P.npre].step, &P.pre[P.npre].thr) == 2) P.npre++;
		}
	}
	free(dup);
	return P.nop ? 0 : -1;
}
