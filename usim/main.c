/* Driver: one process per simulated execution, results reported over a pipe. */
#include "sim.h"
#include <stdarg.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <sys/personality.h>

void sim_run(void);
int rep_fd = 1; int trace_on;
static uint64_t hh = 0xcbf29ce484222325ULL, sg = 0x9e3779b97f4a7c15ULL;
static struct { char k[32]; uint64_t n; } st[160]; static int nst;
static uint64_t states[128]; static int nstates;
static int sim_over;
ssize_t __real_write(int, const void *, size_t);

void put(const char *fmt, ...)
{
	char b[700]; va_list ap; va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 1) n = (int)sizeof b - 1;
	if (write(rep_fd, b, (size_t)n) < 0) _exit(9);
}
void tr(const char *fmt, ...)
{
	if (!trace_on) return;
	va_list ap; va_start(ap, fmt); fputs("# ", stderr); vfprintf(stderr, fmt, ap); fputc('\n', stderr); va_end(ap);
}
void stat_add(const char *k, uint64_t n)
{
	for (int i = 0; i < nst; i++) if (!strcmp(st[i].k, k)) { st[i].n += n; return; }
	if (nst < 160) { snprintf(st[nst].k, 32, "%s", k); st[nst++].n = n; }
}
void hist_mix(const void *p, size_t n) { for (size_t i = 0; i < n; i++) { hh ^= ((const unsigned char *)p)[i]; hh *= 0x100000001b3ULL; } }
void hist_u64(uint64_t v) { hist_mix(&v, 8); }
void sig_u64(uint64_t v) { rng_t r = { sg ^ v }; sg = rng_next(&r); }
void state_seen(uint64_t v)
{
	rng_t r = { v }; v = rng_next(&r); sig_u64(v);
	for (int i = 0; i < nstates; i++) if (states[i] == v) return;
	if (nstates < 128) states[nstates++] = v;
}
void (*at_run_end)(void);
void run_end(void)
{
	if (at_run_end) at_run_end();
	for (int i = 0; i < nst; i++) put("S %s %llu\n", st[i].k, (unsigned long long)st[i].n);
	for (int i = 0; i < nstates; i++) put("A %llx\n", (unsigned long long)states[i]);
	if (nstates > 1) put("G %llx\n", (unsigned long long)sg);
	put("H %llx\n", (unsigned long long)hh);
	put("E\n");
	fflush(stderr);
	_exit(0);
}
void viol(const char *cat, const char *fmt, ...)
{
	char b[500]; va_list ap;
	if (sim_over) _exit(9);
	sim_over = 1;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (char *c = b; *c; c++) if (*c == '\n') *c = ' ';
	if (!strcmp(cat, "plan-too-long")) stat_add("overrun", 1);
	else { put("V %s %s\n", cat, b); hist_mix(cat, strlen(cat)); hist_mix(b, strlen(b)); }
	run_end();
}

#define NSET 65536
typedef struct { uint64_t *v; size_t n, cap; } set_t;
static int set_add(set_t *s, uint64_t x)
{
	if (!x) x = 1;
	if (2 * (s->n + 1) > s->cap) {
		size_t oc = s->cap; uint64_t *ov = s->v;
		s->cap = oc ? oc * 2 : 4096; s->v = calloc(s->cap, 8); s->n = 0;
		for (size_t i = 0; i < oc; i++) if (ov[i]) set_add(s, ov[i]);
		free(ov);
	}
	size_t i = x * 0x9e3779b97f4a7c15ULL % s->cap;
	while (s->v[i]) { if (s->v[i] == x) return 0; i = (i + 1) % s->cap; }
	s->v[i] = x; s->n++; return 1;
}
static set_t Sstates, Ssigs;
static struct { char k[32]; uint64_t n; } agg[400]; static int nagg;
static void agg_add(const char *k, uint64_t n)
{
	for (int i = 0; i < nagg; i++) if (!strcmp(agg[i].k, k)) { agg[i].n += n; return; }
	if (nagg < 400) { snprintf(agg[nagg].k, 32, "%s", k); agg[nagg++].n = n; }
}
typedef struct { char cat[32]; char msg[520]; uint64_t hash; int ended; } res_t;
#if defined(V_ASAN) || defined(V_MSAN)
static unsigned cpu_limit = 240;
#else
static unsigned cpu_limit = 60;
#endif
static sb_t *rec_out;

static void run_one(const char *plan, int fresh_trace, res_t *R, int count)
{
	int pf[2]; memset(R, 0, sizeof *R);
	if (pipe(pf)) exit(3);
	fflush(stdout); fflush(stderr);
	pid_t c = fork();
	if (c < 0) { perror("fork"); exit(3); }
	if (!c) {
		struct rlimit rl = { cpu_limit, cpu_limit + 5 }; setrlimit(RLIMIT_CPU, &rl);
		struct rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
		close(pf[0]); rep_fd = pf[1]; trace_on = fresh_trace;
		if (plan_parse(plan)) { put("X bad plan\n"); _exit(8); }
		sim_run();
		run_end();
	}
	close(pf[1]);
	FILE *f = fdopen(pf[0], "r"); char l[800];
	while (fgets(l, sizeof l, f)) {
		l[strcspn(l, "\n")] = 0;
		if (l[0] == 'V') { sscanf(l + 2, "%31s", R->cat); char *s = strchr(l + 2, ' '); snprintf(R->msg, sizeof R->msg, "%s", s ? s + 1 : ""); }
		else if (l[0] == 'S') { char k[32]; unsigned long long n; if (count && sscanf(l + 2, "%31s %llu", k, &n) == 2) agg_add(k, n); }
		else if (l[0] == 'A') { if (count) set_add(&Sstates, strtoull(l + 2, NULL, 16)); }
		else if (l[0] == 'G') { if (count) set_add(&Ssigs, strtoull(l + 2, NULL, 16)); }
		else if (l[0] == 'H') R->hash = strtoull(l + 2, NULL, 16);
		else if (l[0] == 'E') R->ended = 1;
		else if (l[0] == 'P' && rec_out) sb(rec_out, "%s\n", l + 2);	/* recorded schedule */
	}
	fclose(f);
	int stt; waitpid(c, &stt, 0);
	if (!R->ended && !R->cat[0]) {
		if (WIFSIGNALED(stt) && (WTERMSIG(stt) == SIGXCPU || WTERMSIG(stt) == SIGKILL)) { strcpy(R->cat, WTERMSIG(stt) == SIGXCPU ? "hang" : ""); snprintf(R->msg, sizeof R->msg, "the run did not finish within its CPU budget"); }
		else if (WIFSIGNALED(stt)) { strcpy(R->cat, "crash"); snprintf(R->msg, sizeof R->msg, "the library crashed (signal %d)", WTERMSIG(stt)); }
		else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 8) { strcpy(R->cat, "badplan"); }
		else { strcpy(R->cat, "crash"); snprintf(R->msg, sizeof R->msg, "the process ended unexpectedly (status 0x%x)", stt); }
	}
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static char *slurp(const char *p)
{
	FILE *f = fopen(p, "r"); if (!f) { perror(p); exit(3); }
	sb_t s = { 0 }; char l[1024]; while (fgets(l, sizeof l, f)) sb(&s, "%s", l); fclose(f);
	return s.b ? s.b : strdup("");
}
int main(int argc, char **argv)
{
	/* the same addresses in every process, so that even code that reads what it must not repeats itself */
	int pe = personality(0xffffffff);
	if (pe >= 0 && !(pe & ADDR_NO_RANDOMIZE) && !getenv("VSIM_ASLR")) { setenv("VSIM_ASLR", "1", 1); if (personality((unsigned long)pe | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
	if (argc >= 3 && !strcmp(argv[1], "run")) {
		res_t R; char *p = slurp(argv[2]);
		run_one(p, argc > 3, &R, 1);
		if (R.cat[0]) printf("V %s %s\n", R.cat, R.msg);
		printf("H %llx\n", (unsigned long long)R.hash);
		if (argc > 3) for (int i = 0; i < nagg; i++) printf("S %s %llu\n", agg[i].k, (unsigned long long)agg[i].n);
		return R.cat[0] ? 1 : 0;
	}
	if (argc >= 3 && !strcmp(argv[1], "record")) {	/* the plan with its scheduling decisions made explicit */
		res_t R; char *p = slurp(argv[2]); sb_t o = { 0 };
		rec_out = &o; run_one(p, 0, &R, 1);
		if (!o.b) return 1;
		fputs(p, stdout); printf("sched explicit\n%s", o.b);
		return 0;
	}
	if (argc >= 4 && !strcmp(argv[1], "gen")) {
		sb_t s = { 0 }; gen_plan(argv[2], strtoull(argv[3], NULL, 0), &s); fputs(s.b, stdout); return 0;
	}
	if (argc >= 7 && !strcmp(argv[1], "batch")) {
		/* batch PROFILE SEED0 STRIDE MAXRUNS SECONDS [recheck-every] [stop-cats] */
		uint64_t seed = strtoull(argv[3], NULL, 0), stride = strtoull(argv[4], NULL, 0); long maxr = atol(argv[5]); double lim = now() + atof(argv[6]);
		long n = 0, det = 0; int every = argc > 7 ? atoi(argv[7]) : 50; int nv = 0;
		for (; n < maxr && now() < lim; n++, seed += stride) {
			sb_t s = { 0 }; res_t R, R2;
			gen_plan(argv[2], seed, &s);
			run_one(s.b, 0, &R, 1);
			if (R.cat[0]) {
				printf("VIOL %llu %s %s\n", (unsigned long long)seed, R.cat, R.msg); fflush(stdout);
				if (++nv >= 400) { free(s.b); n++; break; }
			} else if (every && n % every == 0) {
				run_one(s.b, 0, &R2, 0); det++;
				if (R2.hash != R.hash) { printf("NONDET %llu\n", (unsigned long long)seed); fflush(stdout); }
			}
			free(s.b);
		}
		printf("DONE runs=%ld det=%ld states=%zu sigs=%zu\n", n, det, Sstates.n, Ssigs.n);
		for (int i = 0; i < nagg; i++) printf("S %s %llu\n", agg[i].k, (unsigned long long)agg[i].n);
		for (size_t i = 0; i < Sstates.cap; i++) if (Sstates.v[i]) printf("A %llx\n", (unsigned long long)Sstates.v[i]);
		for (size_t i = 0; i < Ssigs.cap; i++) if (Ssigs.v[i]) printf("G %llx\n", (unsigned long long)Ssigs.v[i]);
		return 0;
	}
	fprintf(stderr, "usage: run FILE [trace] | gen PROFILE SEED | batch PROFILE SEED0 STRIDE MAX SECONDS [recheck]\n");
	return 3;
}
#ifdef V_MSAN
const char *__msan_default_options(void);
const char *__msan_default_options(void) { return "abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_abort=0:print_stats=0"; }
#endif
#ifdef V_ASAN
const char *__asan_default_options(void);
const char *__asan_default_options(void) { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=4:verify_asan_link_order=0:print_summary=0"; }
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "abort_on_error=1:halt_on_error=1:print_stacktrace=0"; }
#endif
