/* C27: timers under virtual clocks */
#include "vh.h"
#include <math.h>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
enum { REAL, US, SS, UC, SC, NCLK };
static int von; static int64_t clk[NCLK];           /* microseconds */
extern int __real_gettimeofday(struct timeval *, void *), __real_clock_gettime(clockid_t, struct timespec *), __real_getrusage(int, struct rusage *); extern time_t __real_time(time_t *); extern clock_t __real_times(struct tms *);
static struct timeval tv(int64_t us) { struct timeval t; t.tv_sec = us / 1000000; t.tv_usec = us % 1000000; return t; }
int __wrap_gettimeofday(struct timeval *v, void *z) { if (!von) return __real_gettimeofday(v, z); *v = tv(clk[REAL]); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { int64_t v; if (!von) return __real_clock_gettime(c, t); v = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? clk[US] + clk[SS] : clk[REAL]; t->tv_sec = v / 1000000; t->tv_nsec = v % 1000000 * 1000; return 0; }
time_t __wrap_time(time_t *t) { time_t r; if (!von) return __real_time(t); r = clk[REAL] / 1000000; if (t) *t = r; return r; }
int __wrap_getrusage(int who, struct rusage *r) { if (!von) return __real_getrusage(who, r); memset(r, 0, sizeof *r); r->ru_utime = tv(clk[who == RUSAGE_CHILDREN ? UC : US]); r->ru_stime = tv(clk[who == RUSAGE_CHILDREN ? SC : SS]); return 0; }
clock_t __wrap_times(struct tms *t) { if (!von) return __real_times(t); t->tms_utime = clk[US] / 10000; t->tms_stime = clk[SS] / 10000; t->tms_cutime = clk[UC] / 10000; t->tms_cstime = clk[SC] / 10000; return clk[REAL] / 10000; }
typedef struct { char *name; int64_t mark[NCLK]; int64_t real, user, sys; int stopped; } timer;
static timer T[4000]; static int nT;
static char *held[4000]; static int nheld;
static uint64_t h;
static timer *find(const char *n) { int i; for (i = 0; i < nT; i++) if (!strcmp(T[i].name, n)) return &T[i]; return NULL; }
static char *any_name(char *b)
{
	size_t i, n; static const char *const fix[] = { "total", "a", "b", "", "%s%n", "a_rather_long_timer_name_beyond_twenty_characters", "x.y", "\xe4\xf6" };
	if (vh_chance(25)) return strcpy(b, fix[vh_below(8)]);
	if (nT && vh_chance(60)) return strcpy(b, T[vh_below((uint64_t)nT)].name);
	n = vh_chance(3) ? 1000 : 1 + vh_below(8); for (i = 0; i < n; i++) b[i] = (char)('a' + vh_below(n < 3 ? 4 : 26)); b[n] = 0; return b;
}
static void pass(void)
{
	int i; static const int64_t step[] = { 0, 1, 7, 999999, 1000000, 1000001, 500000, 60000000, 123456789, 86400000000LL, 31622400000000LL, 315576000000000LL };
	for (i = 0; i < NCLK; i++) switch (vh_below(6)) { case 0: break; case 1: { int64_t d = step[vh_below(vh_chance(10) ? 12 : 10)]; if (clk[i] + d < (i == REAL ? 3000000000000000LL : 500000000000000LL)) clk[i] += d; } break; case 2: clk[i] += (int64_t)vh_below(3000000); break; case 3: clk[i] += 1000000 - clk[i] % 1000000 - (int64_t)vh_below(2); break; case 4: clk[i] += (int64_t)vh_below(100); break; default: clk[i] += (int64_t)(vh_below(1000) * vh_below(1000) * vh_below(100)); }
}
static int close_to(double got, int64_t us) { return fabs(got * 1e6 - (double)us) < 0.6; }
static void compare(timer *t)
{
	char *g = vh_arg(t->name, strlen(t->name) + 1); double r, u, s;
	von = 1; r = tim_get_real(g); u = tim_get_user(g); s = tim_get_system(g); von = 0;
	vh_unarg(g);
	VH_CHECK(close_to(r, t->real), "real-time", "timer \"%s\": wall-clock time %.6f, should be %.6f", vh_quote(t->name, strlen(t->name)), r, (double)t->real / 1e6);
	VH_CHECK(close_to(u, t->user), "user-time", "timer \"%s\": user time %.6f, should be %.6f", vh_quote(t->name, strlen(t->name)), u, (double)t->user / 1e6);
	VH_CHECK(close_to(s, t->sys), "system-time", "timer \"%s\": system time %.6f, should be %.6f", vh_quote(t->name, strlen(t->name)), s, (double)t->sys / 1e6);
	vh_count("timers read", 1);
	if (!t->stopped) vh_count("timers without result read", 1);
}
/* a printed line must begin with the name and give the three values */
static void printed(const timer *t, const char *l, size_t n)
{
	double v[3]; int k = 0; const char *p = l + strlen(t->name); char b[400]; int64_t w[3] = { t->real, t->user, t->sys };
	VH_CHECK(n > strlen(t->name) && !memcmp(l, t->name, strlen(t->name)), "printed-name", "printed \"%s\" for timer \"%s\"", vh_quote(l, n), vh_quote(t->name, strlen(t->name)));
	snprintf(b, sizeof b, "%.*s", (int)(l + n - p), p);
	{ char *q = b; while (*q && k < 3) { if ((*q >= '0' && *q <= '9') || (*q == '-' && q[1] >= '0' && q[1] <= '9')) v[k++] = strtod(q, &q); else q++; } }
	VH_CHECK(k == 3, "printed-values", "printed \"%s\"", vh_quote(l, n));
	for (k = 0; k < 3; k++) VH_CHECK(fabs(v[k] - (double)w[k] / 1e6) <= 0.000501, "printed-values", "timer \"%s\": printed %.3f as value %d, should be %.3f", vh_quote(t->name, strlen(t->name)), v[k], k, (double)w[k] / 1e6);
}
static void print_all(void)
{
	char *b = NULL, *l, *e; size_t n; FILE *f = open_memstream(&b, &n); int i, lines = 0; static unsigned char seen[4000]; memset(seen, 0, sizeof seen);
	tim_print_timers(f); fclose(f);
	for (l = b; l < b + n; l = e + 1, lines++) {
		int best = -1; const char *v;
		e = memchr(l, '\n', (size_t)(b + n - l)); VH_CHECK(e, "printed-newline", "the list of timers does not end with a newline");
		/* the name is what stands before the three values: the last three blank-separated fields */
		for (v = e, i = 0; i < 3 && v > l; i++) { while (v > l && v[-1] == ' ') v--; while (v > l && v[-1] != ' ') v--; }
		while (v > l && v[-1] == ' ') v--;
		for (i = 0; i < nT; i++) if (strlen(T[i].name) == (size_t)(v - l) && !memcmp(l, T[i].name, (size_t)(v - l))) best = i;
		VH_CHECK(best >= 0, "printed-unknown", "the list of timers has \"%s\"", vh_quote(l, (size_t)(e - l)));
		VH_CHECK(!seen[best], "printed-twice", "the list of timers has \"%s\" twice", T[best].name); seen[best] = 1;
		printed(&T[best], l, (size_t)(e - l));
	}
	VH_CHECK(lines == nT, "printed-count", "the list of timers has %d lines for %d timers", lines, nT);
	free(b); vh_count("lists printed", 1); vh_count("lines printed", (uint64_t)lines);
}
static struct { int op; const char *name; } X;
static void unknown(void *a) { (void)a; switch (X.op) { case 0: tim_stop(X.name); break; case 1: tim_reset(X.name); break; case 2: tim_get_real(X.name); break; case 3: tim_get_user(X.name); break; case 4: tim_get_system(X.name); break; default: tim_print_timer(stdout, X.name); } }
static void refusal(void)
{
	char b[2000]; vh_result r; static const char *const fn[] = { "tim_stop", "tim_reset", "tim_get_real", "tim_get_user", "tim_get_system", "tim_" };
	any_name(b); if (find(b)) strcat(b, "~"); if (find(b)) return;
	X.op = (int)vh_below(6); X.name = b;
	vh_op("unknown timer, operation %d", X.op);
	vh_child(&r, unknown, NULL);
	VH_CHECK(!vh_is_sanitizer(&r), "memory-error", "%s", r.err);
	VH_CHECK(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT && strstr(r.err, fn[X.op]) && strstr(r.err, b), "unknown-timer", "%s of a timer never started gives 0x%x \"%s\"", fn[X.op], r.status, vh_quote(r.err, r.errlen));
	vh_result_free(&r); vh_count("refusals", 1);
}
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
void vh_case(uint64_t idx)
{
	int lives = 1 + (int)vh_below(2), i, big = vh_chance(2); char b[2100]; int again = 0, resets = 0;
	h = 0;
	clk[REAL] = 1500000000000000LL + (int64_t)(vh_below(1000000000) * 997); for (i = 1; i < NCLK; i++) clk[i] = (int64_t)vh_below(2000000);
	while (lives--) {
		int steps = 20 + (int)vh_below(150), inited = vh_chance(30);
		if (vh_chance(30)) print_all();
		if (inited) { von = 1; maa_init("monitor"); von = 0; T[nT].name = strdup("total"); memcpy(T[nT].mark, clk, sizeof clk); T[nT].real = T[nT].user = T[nT].sys = T[nT].stopped = 0; nT++; }
		if (big) steps = 3000;
		while (steps--) {
			int k = (int)vh_below(100); timer *t; char *g;
			if (vh_chance(70)) pass();
			any_name(b);
			if (big && vh_chance(60)) snprintf(b, sizeof b, "t%d", (int)vh_below(100000));
			t = find(b);
			if (k < 35 || (!t && k < 90 && nT < 3900)) {
				if (!t && nT >= 3900) continue;
				g = t ? vh_arg(b, strlen(b) + 1) : vh_exact(b, strlen(b) + 1); vh_op("start \"%s\"%s", vh_quote(b, strlen(b)), t ? " again" : "");
				von = 1; tim_start(g); von = 0;
				if (!t) { t = &T[nT++]; memset(t, 0, sizeof *t); t->name = strdup(b); held[nheld++] = g; } else { memset(g, 0x5a, strlen(b)); vh_unarg(g); again++; vh_count("timers restarted", 1); }
				memcpy(t->mark, clk, sizeof clk); vh_count("starts", 1); compare(t);
			} else if (!t) { if (vh_chance(8)) refusal(); }
			else if (k < 65) {
				g = vh_arg(b, strlen(b) + 1); von = 1; tim_stop(g); von = 0; vh_unarg(g);
				t->real = clk[REAL] - t->mark[REAL]; t->user = clk[US] - t->mark[US] + clk[UC] - t->mark[UC]; t->sys = clk[SS] - t->mark[SS] + clk[SC] - t->mark[SC]; t->stopped = 1;
				vh_op("stop \"%s\": %.6f %.6f %.6f", vh_quote(b, strlen(b)), (double)t->real / 1e6, (double)t->user / 1e6, (double)t->sys / 1e6);
				compare(t); vh_count("stops", 1); h = vh_mix(h, (uint64_t)t->real);
			} else if (k < 73) { vh_op("reset \"%s\"", vh_quote(b, strlen(b))); von = 1; tim_reset(b); von = 0; t->real = t->user = t->sys = 0; t->stopped = 0; resets++; compare(t); vh_count("resets", 1); }
			else if (k < 90) compare(&T[vh_below((uint64_t)nT)]);
			else if (k < 94) { char *o = NULL; size_t n; FILE *f = open_memstream(&o, &n); tim_print_timer(f, b); fclose(f); VH_CHECK(n && o[n - 1] == '\n', "printed-newline", "a printed timer does not end with a newline"); printed(t, o, n - 1); free(o); vh_count("timers printed", 1); }
			else if (k < 96) { if (vh_chance(big ? 5 : 100)) print_all(); }
			else if (k < 97) refusal();
		}
		for (i = 0; i < nT; i++) compare(&T[i]);
		print_all(); vh_max("timers at once", (uint64_t)nT);
		von = 1; if (inited && vh_chance(50)) maa_shutdown(); else _tim_shutdown(); von = 0;
		while (nT) free(T[--nT].name);
		while (nheld) { memset(held[nheld - 1], 0x5a, 1); free(held[--nheld]); }
		vh_count("shut-downs", 1);
	}
	vh_digest(h); if (again > 2 && resets) vh_nontrivial();
	if (idx < 2) vh_sample("%d restarts, %d resets", again, resets);
}
