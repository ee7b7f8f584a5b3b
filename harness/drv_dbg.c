/* C33: the library's own debugging changes no result, and reports at shutdown */
#include "vh.h"
#include "facil.h"
#include <sys/mman.h>
static void fac_enter(void) {} static void fac_leave(void) {}
static const char *const NM[6] = { ".memory", ".time", ".pr", ".sl", ".src", ".parse" };
static const unsigned long FL[6] = { MAA_MEMORY, MAA_TIME, MAA_PR, MAA_SL, MAA_SRC, MAA_PARSE };
enum { MEM, TIM, PR_, SL_, SRC, PARSE };
#define MAXW 12
static struct { int nw, w[MAXW], n[MAXW], log, nest, timers, strings, again; unsigned life[8]; uint64_t sd[MAXW], ys; int how[6]; unsigned on; const char *prog; } X;
static struct shared { uint64_t dig[MAXW]; char bad[400]; char stats[2000], timers[40000], lstats[8][2000], ltimers[8][40000]; long loglen; int done; char again[300]; } *sh;
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; fac_setup(); fac_keys(); sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) vh_inconclusive("mmap"); }
static void flags_are(unsigned want, const char *when)
{
	int i; for (i = 0; i < 6; i++) if (!!dbg_test(FL[i]) != !!(want & 1u << i) && !*sh->bad) snprintf(sh->bad, sizeof sh->bad, "%s: %s tests %s", when, NM[i], dbg_test(FL[i]) ? "on" : "off");
}
static void mark(const char *m) { fflush(NULL); (void)!write(2, m, strlen(m)); }
static char tnames[64][32];
static void child(void *a)
{
	unsigned on = *(unsigned *)a; int i; char *t; size_t n; FILE *f; char *lp = vh_path("log-%d", (int)on);
	maa_init(X.prog); flags_are(0, "after maa_init");
	if (on == 63 && X.how[0] == 2) dbg_set("all");
	else for (i = 0; i < 6; i++) {
		char b[20]; if (!(on & 1u << i)) { if (X.how[i] == 3 && on) { dbg_set(NM[i]); snprintf(b, sizeof b, "-%s", NM[i]); dbg_set(b); } continue; }
		switch (X.how[i]) { case 0: dbg_set(NM[i]); break; case 1: snprintf(b, sizeof b, "+%s", NM[i]); dbg_set(b); break; default: dbg_set_flag(FL[i]); }
	}
	flags_are(on, "after switching on");
	if (X.log & 1) log_file("id", lp);
	if (X.log & 2) log_stream("id", fopen("/dev/null", "w"));
	fac_nest_percent = 0; fac_ys = X.ys;
	for (i = 0; i < X.nw; i++) { sh->dig[i] = fac_run_at(X.w[i], X.sd[i], X.n[i], 0); flags_are(on, fac_tab[X.w[i]].name); }
	for (i = 0; i < X.strings; i++) str_find(fac_key[i % FAC_KEYS]);
	for (i = 0; i < X.timers; i++) { snprintf(tnames[i], 32, "T%d of mine", i); tim_start(tnames[i]); if (i % 3) tim_stop(tnames[i]); }
	f = open_memstream(&t, &n); str_print_stats(f); fclose(f); snprintf(sh->stats, sizeof sh->stats, "%s", t); free(t);
	f = open_memstream(&t, &n); tim_print_timers(f); fclose(f); snprintf(sh->timers, sizeof sh->timers, "%s", t); free(t);
	{ struct stat st; sh->loglen = (X.log & 1) && !stat(lp, &st) ? (long)st.st_size : 0; }
	mark("@@1\n"); maa_shutdown(); mark("@@2\n"); log_close(); unlink(lp);
	flags_are(0, "after maa_shutdown");
	for (i = 0; i < X.again; i++) {      /* more lives, which report as the first did, or not at all */
		unsigned o = X.life[i] & on; int j;
		maa_init(X.prog); flags_are(0, "after maa_init again"); for (j = 0; j < 6; j++) if (o & 1u << j) dbg_set(NM[j]); flags_are(o, "after switching on again");
		fac_forgotten(); fac_ys = X.ys; if (X.nw && !(on & (1 << PR_ | 1 << SRC))) fac_run_at(X.w[0], X.sd[0], X.n[0] < 60 ? X.n[0] : 60, 0);
		for (j = 0; j < X.strings; j += 2) str_find(fac_key[j % FAC_KEYS]);
		for (j = 0; j < X.timers; j += 1 + i) { snprintf(tnames[j], 32, "T%d of mine", j); tim_start(tnames[j]); tim_stop(tnames[j]); }
		f = open_memstream(&t, &n); str_print_stats(f); fclose(f); snprintf(sh->lstats[i], sizeof sh->lstats[i], "%s", t); free(t);
		f = open_memstream(&t, &n); tim_print_timers(f); fclose(f); snprintf(sh->ltimers[i], sizeof sh->ltimers[i], "%s", t); free(t);
		mark("@@L\n"); maa_shutdown(); mark("@@M\n"); flags_are(0, "after maa_shutdown again");
	}
	mark("@@3\n"); sh->done = 1;
}
static int cmpl(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static int lines(char *s, char **v, int max) { int n = 0; char *p; for (p = strtok(s, "\n"); p && n < max; p = strtok(NULL, "\n")) if (strncmp(p, "total", 5) || !strchr(" \t:", p[5])) v[n++] = p; qsort(v, n, sizeof *v, cmpl); return n; }
static void shutdown_prints(const char *p, const char *q, unsigned on, const char *stats, const char *timers)
{
	char *t, *g, v[100]; size_t n; int k = 0;
	t = strndup(p, q - p); g = t; n = q - p;
	snprintf(v, sizeof v, "%s", maa_version());
	if (!(on & 3)) { VH_CHECK(n == 0, "shutdown-prints", "maa_shutdown prints \"%s\" with neither .memory nor .time on", vh_quote(t, n)); vh_count("silent shut-downs", 1); free(t); return; }
	{ char *x = strstr(g, v); VH_CHECK(x, "shutdown-version", "maa_shutdown does not print the version: \"%s\"", vh_quote(t, n)); VH_CHECK(!strstr(x + 1, v), "shutdown-version", "maa_shutdown prints the version twice"); memset(x, ' ', strlen(v)); }
	if (on & 1) { char *x = strstr(g, stats); VH_CHECK(x, "shutdown-statistics", "maa_shutdown prints \"%s\", and not the statistics \"%s\"", vh_quote(t, n), vh_quote(stats, strlen(stats))); memset(x, '\n', strlen(stats)); vh_count("statistics at shutdown", 1); }
	if (on & 2) {
		char *w = strdup(timers), *lw[200], *lg[200]; int nw = lines(w, lw, 200), i, ng, tot = 0; char *x;
		for (x = g; (x = strstr(x, "total")); x++) if ((x == g || x[-1] == '\n') && strchr(" \t:", x[5])) tot++;
		VH_CHECK(tot == 1, "shutdown-total", "maa_shutdown prints %d lines for the total: \"%s\"", tot, vh_quote(g, strlen(g)));
		ng = lines(g, lg, 200); for (i = 0; i < ng; i++) if (strspn(lg[i], " ") == strlen(lg[i])) { memmove(lg + i, lg + i + 1, sizeof *lg * (ng - i - 1)); ng--; i--; }
		VH_CHECK(ng == nw, "shutdown-timers", "maa_shutdown prints %d timers besides the total, there are %d", ng, nw);
		for (i = 0; i < nw; i++) VH_CHECK(!strcmp(lw[i], lg[i]), "shutdown-timers", "maa_shutdown prints \"%s\", the timer is \"%s\"", lg[i], lw[i]);
		vh_count("timers at shutdown", nw + 1); free(w); k = 1;
	}
	if (!k) VH_CHECK(strspn(g, " \n") == strlen(g), "shutdown-prints", "maa_shutdown also prints \"%s\"", vh_quote(g, strlen(g)));
	free(t);
}
static void at_shutdown(const vh_result *r, unsigned on)
{
	char *p = strstr(r->err, "@@1\n"), *q = p ? strstr(p, "@@2\n") : NULL, *e = q ? strstr(q, "@@3\n") : NULL, *s; int i;
	VH_CHECK(p && q && e, "no-shutdown", "no shutdown: \"%s\"", vh_quote(r->err, r->errlen));
	shutdown_prints(p + 4, q, on, sh->stats, sh->timers);
	for (i = 0, s = q + 4; i < X.again; i++) {
		p = strstr(s, "@@L\n"); q = p ? strstr(p, "@@M\n") : NULL;
		VH_CHECK(p && q, "no-shutdown", "no shutdown of life %d: \"%s\"", i + 2, vh_quote(s, strlen(s)));
		shutdown_prints(p + 4, q, X.life[i] & on, sh->lstats[i], sh->ltimers[i]); s = q + 4; vh_count("later lives", 1);
	}
	VH_CHECK(e == s, "prints-behind", "\"%s\" is printed behind the last shutdown", vh_quote(s, e - s));
}
static void one(unsigned on, uint64_t *dig, vh_result *r, long *loglen)
{
	memset(sh, 0, sizeof *sh); vh_child(r, child, &on);
	VH_CHECK(!vh_is_sanitizer(r), "memory-error", "%s", r->err);
	VH_CHECK(!r->timed_out && sh->done && r->status == 0, "ends", "debugging 0x%x: the run ended with 0x%x: %s", on, r->status, r->err);
	VH_CHECK(!*sh->bad, "flags", "%s", sh->bad);
	at_shutdown(r, on); memcpy(dig, sh->dig, sizeof sh->dig); *loglen = sh->loglen;
}
void vh_case(uint64_t idx)
{
	int i, has_pr = 0, has_src = 0; uint64_t da[MAXW], db[MAXW]; vh_result ra, rb; long la, lb; char tr[800]; size_t k = 0; char *ea, *eb;
	memset(&X, 0, sizeof X); tr[0] = 0;
	X.nw = (int)vh_below(MAXW); X.prog = (const char *[]){ "prog", "/a/b/prog", "x" }[vh_below(3)]; X.log = (int)vh_below(4); X.ys = vh_u64(); X.timers = (int)vh_below(20); X.strings = (int)vh_below(300); X.again = vh_chance(40) ? 1 + (int)vh_below(vh_chance(30) ? 8 : 2) : 0; for (i = 0; i < 8; i++) X.life[i] = vh_chance(50) ? 63 : vh_chance(30) ? 0 : (unsigned)vh_below(64);
	for (i = 0; i < X.nw; i++) {
		do { X.w[i] = (int)vh_below(FAC_N); } while (!strcmp(fac_tab[X.w[i]].name, "log") || !strcmp(fac_tab[X.w[i]].name, "flags") || !strcmp(fac_tab[X.w[i]].name, "warnings"));
		if (vh_chance(20)) X.w[i] = FAC_PR;
		if (vh_chance(20)) { int j; for (j = 0; j < FAC_N; j++) if (!strcmp(fac_tab[j].name, "source")) X.w[i] = j; }
		X.n[i] = (int)vh_range(0, vh_chance(15) ? 2000 : 150); X.sd[i] = vh_u64(); has_pr |= X.w[i] == FAC_PR; has_src |= !strcmp(fac_tab[X.w[i]].name, "source") && X.n[i] > 20;
		if (k < 700) k += snprintf(tr + k, sizeof tr - k, "%s/%d ", fac_tab[X.w[i]].name, X.n[i]);
		vh_digest(X.w[i] * 10000 + X.n[i]);
	}
	X.on = vh_chance(25) ? 63 : (unsigned)vh_below(64); if (!X.on && vh_chance(80)) X.on = 1u << vh_below(6);
	for (i = 0; i < 6; i++) X.how[i] = (int)vh_below(4);
	vh_op("debugging 0x%x; %s", X.on, tr);
	one(0, da, &ra, &la); one(X.on, db, &rb, &lb);
	for (i = 0; i < X.nw; i++) { VH_CHECK(da[i] == db[i], "different-results", "workload %s of size %d gives other results with debugging 0x%x", fac_tab[X.w[i]].name, X.n[i], X.on); vh_count("workloads compared", 1); }
	ea = strstr(ra.err, "@@1"); eb = strstr(rb.err, "@@1");
	VH_CHECK(ea - ra.err == eb - rb.err && !memcmp(ra.err, rb.err, ea - ra.err), "other-standard-error", "standard error before the shutdown is \"%s\" with debugging 0x%x, without \"%s\"", vh_quote(rb.err, eb - rb.err), X.on, vh_quote(ra.err, ea - ra.err));
	if (!(X.on & (1 << PR_ | 1 << SRC))) VH_CHECK(ra.outlen == rb.outlen && !memcmp(ra.out, rb.out, ra.outlen), "other-standard-output", "standard output is \"%s\" with debugging 0x%x, without \"%s\"", vh_quote(rb.out, rb.outlen), X.on, vh_quote(ra.out, ra.outlen));
	VH_CHECK(la == 0, "records-unasked", "%ld bytes of records without debugging", la);
	if (X.log & 1) {
		if (!(X.on & (1 << PR_ | 1 << SRC))) VH_CHECK(lb == 0, "records-unasked", "%ld bytes of records with debugging 0x%x", lb, X.on);
		if ((X.on & 1 << PR_) && has_pr) { VH_CHECK(lb > 0, "records-missing", "no record of processes with .pr on"); vh_count("logs with records of processes", 1); }
		if ((X.on & 1 << SRC) && has_src) { VH_CHECK(lb > 0, "records-missing", "no record of source lines with .src on"); vh_count("logs with records of source lines", 1); }
	}
	vh_count("pairs of runs", 1); for (i = 0; i < 6; i++) if (X.on & 1u << i) vh_count("flags on", 1);
	vh_digest(X.on); if (X.nw > 2 && X.on) vh_nontrivial();
	if (idx < 2) vh_sample("debugging 0x%x: %s", X.on, tr);
	vh_result_free(&ra); vh_result_free(&rb);
}
