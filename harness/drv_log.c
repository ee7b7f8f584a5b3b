/* C20: delivery to every open log; -DROT=1 C21: time-patterned files */
#include "logw.h"
#include <dirent.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <time.h>
static record **all; static unsigned nall, capall;      /* kept until the end of the case */
typedef struct { record **r; unsigned n, cap; char *path, *before, *mem; size_t memn; int kind, fd; FILE *f; } sink;
static sink F, S, Y; static int open_f, open_s, open_y, full, nfile; static char ident[128]; static unsigned seq; static char *facility; static int facno;
static const struct { const char *n; int v; } FAC[] = { {"auth",LOG_AUTH},{"authpriv",LOG_AUTHPRIV},{"cron",LOG_CRON},{"daemon",LOG_DAEMON},{"ftp",LOG_FTP},{"kern",LOG_KERN},{"lpr",LOG_LPR},{"mail",LOG_MAIL},{"news",LOG_NEWS},{"syslog",LOG_SYSLOG},{"user",LOG_USER},{"uucp",LOG_UUCP},{"local0",LOG_LOCAL0},{"local1",LOG_LOCAL1},{"local2",LOG_LOCAL2},{"local3",LOG_LOCAL3},{"local4",LOG_LOCAL4},{"local5",LOG_LOCAL5},{"local6",LOG_LOCAL6},{"local7",LOG_LOCAL7} };
static int sys_used;
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; log_host(); signal(SIGPIPE, SIG_IGN); if (chdir(vh_scratch)) vh_inconclusive("chdir"); }
static void add(sink *s, record *r) { if (s->n == s->cap) { s->cap = s->cap * 2 + 32; s->r = realloc(s->r, s->cap * sizeof *s->r); } s->r[s->n++] = r; }
#define L50 "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJ_1234"
static const char long_ident[] = L50 " " L50 "-15char-ending.", long_routine[] = L50 L50 L50 L50 L50 L50 L50;
static record *make_record(void)
{
	record *r = calloc(1, sizeof *r); unsigned n = vh_chance(4) ? 3500 + (unsigned)vh_below(1500) : vh_chance(3) ? 5000 + (unsigned)vh_below(20000) : (unsigned)vh_below(80), i, k; static const char *const rt[] = { "main", "a_long_routine_name_of_some_length_for_the_record", "f", NULL, "x%dy", long_routine };
	char head[32]; int style = (int)vh_below(3);
	r->error = vh_chance(50); r->routine = r->error ? rt[vh_below(vh_chance(30) ? 6 : 5)] : NULL;
	k = (unsigned)snprintf(head, sizeof head, "#%u#", ++seq); r->msg = malloc(n + k + 2); memcpy(r->msg, head, k);
	for (i = 0; i < n; i++) { char c = style == 0 ? 'a' + (int)vh_below(26) : style == 1 ? (char)(1 + vh_below(255)) : "x %s%n%d\\\t"[vh_below(10)]; r->msg[k + i] = c == '#' ? '.' : c; }
	r->msg[k + n] = 0; r->len = strlen(r->msg); r->full = full; r->t = vclock_s; strcpy(r->ident, ident);
	if (nall == capall) { capall = capall * 2 + 64; all = realloc(all, capall * sizeof *all); } all[nall++] = r;
	return r;
}
static void info_va(const char *f, ...) { va_list ap; va_start(ap, f); log_info_va(f, ap); va_end(ap); }
static void error_va(const char *r, const char *f, ...) { va_list ap; va_start(ap, f); log_error_va(r, f, ap); va_end(ap); }
static int by_child, no_children; static void emit(void)
{
	record *r = make_record(); size_t half = r->len / 2; int how = (int)vh_below(4); char *b = vh_arg(r->msg, r->len + 1); pid_t child = -1; by_child = 0;
	if (!no_children && !(open_s && S.kind == 4) && vh_chance(3)) { /* the record comes from a child process (which may itself have a child) */
		int deep = vh_chance(20), st; fflush(NULL);
		child = fork(); if (child < 0) vh_inconclusive("fork");
		if (child > 0) { VH_CHECK(waitpid(child, &st, 0) == child && WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 40), "child-died", "a process that writes a log record ends with 0x%x", st); if (WEXITSTATUS(st)) vh_inconclusive("fork"); r->pid = child; vh_count("records from a child process", 1); }
		else if (deep) { /* a record of an unrelated grandchild would come between; it only reports that it lives */ pid_t g = fork(); if (!g) _exit(0); if (g < 0 || waitpid(g, &st, 0) != g) _exit(40); }
	}
	if (child > 0) { by_child = 1; goto done; }
	vclock_on = 1; 
	if (r->error) { if (how == 0) log_error(r->routine, "%s", b); else if (how == 1) log_error(r->routine, "%.*s%s", (int)half, b, b + half); else if (how == 2) error_va(r->routine, "%s", b); else log_error(r->routine, "#%u%s%c%s", (unsigned)strtoul(b + 1, NULL, 10), "#", b[strcspn(b + 1, "#") + 2] ? b[strcspn(b + 1, "#") + 2] : ' ', b[strcspn(b + 1, "#") + 2] ? b + strcspn(b + 1, "#") + 3 : ""); }
	else { if (how == 0) log_info("%s", b); else if (how == 1) log_info("%.*s%s", (int)half, b, b + half); else info_va("%s", b); }
	vclock_on = 0;
	if (child == 0) _exit(0);
done:
	if (r->error && how == 3 && !b[strcspn(b + 1, "#") + 2]) { r->msg = realloc(r->msg, r->len + 2); r->msg[r->len++] = ' '; r->msg[r->len] = 0; }
	vh_unarg(b);
	if (open_f) add(&F, r);
	if (open_s) add(&S, r);
	if (open_y && child < 0) add(&Y, r);   /* the child's calls are recorded in the child */
	if (!open_f && !open_s && !open_y) vh_count("records with no log open", 1); else vh_count("records", 1);
	vh_op("%s record, %zu bytes, open: %s%s%s", r->error ? "error" : "info", r->len, open_f ? "file " : "", open_s ? "stream " : "", open_y ? "syslog" : "");
}
#ifndef ROT
static char *new_path(const char *kind, int dirs)
{
	char p[600]; int i, d = dirs ? (int)vh_below(4) : 0; size_t n = (size_t)snprintf(p, sizeof p, "%s/c%llu-%s%d", vh_scratch, (unsigned long long)vh_case_index, kind, nfile++);
	for (i = 0; i < d; i++) n += (size_t)snprintf(p + n, sizeof p - n, "/d%d", i);
	if (vh_chance(10)) snprintf(p + n, sizeof p - n, "x y.log");
	else if (d && vh_chance(20)) snprintf(p + n, sizeof p - n, "/a b%%%%c.log");
	return strdup(p);
}
static void literal(char *p) { char *q; for (q = p; *p; p++) { *q++ = *p; if (p[0] == '%' && p[1] == '%') p++; } *q = 0; }
static void do_open_file(void)
{
	char *p; if (open_f) return;
	/* the identification is the program's: the last one given counts */
	if (open_s) vh_count("logs opened under another identification", 1);
	snprintf(ident, sizeof ident, "%s", (const char *[]){ "prog", "ident with spaces", "i", "a-rather-long-identification-string-for-records", long_ident }[vh_below(5)]);
	p = new_path("f", 1); F.path = strdup(p); literal(F.path); F.before = strdup(""); F.n = 0;
	if (!strchr(F.path + strlen(vh_scratch) + 1, '/') && vh_chance(60)) { FILE *o = fopen(F.path, "w"); free(F.before); F.before = strdup(vh_chance(50) ? "earlier contents\nsecond line\n" : "no newline at the end"); fputs(F.before, o); fclose(o); vh_count("files with earlier contents", 1); }
	else vh_count("directories created", 1);
	if (vh_chance(30)) { memmove(p, p + strlen(vh_scratch) + 1, strlen(p) - strlen(vh_scratch)); vh_count("relative names", 1); }   /* the scratch directory is the current one */
	vclock_on = 1; if (vh_chance(30)) { char *i2 = strdup(ident); log_file(i2, p); memset(i2, 'X', strlen(i2)); free(i2); memset(p, 'X', strlen(p)); } else log_file(ident, p); vclock_on = 0;
	open_f = 1; vh_op("log_file %s", F.path); free(p); vh_count("logs opened", 1);
}
static void do_close_file(void)
{
	size_t n; char *c; if (!open_f) { log_file(NULL, NULL); return; }
	log_file(NULL, NULL); open_f = 0; vh_op("close file");
	c = vh_read_file(F.path, &n); VH_CHECK(c != NULL, "file-missing", "the log file %s does not exist", F.path);
	check_log("file", c, n, F.before, F.r, F.n); free(c); free(F.path); free(F.before);
}
static void do_open_stream(void)
{
	if (open_s) return;
	if (open_f) vh_count("logs opened under another identification", 1);
	snprintf(ident, sizeof ident, "%s", (const char *[]){ "stream", "s t", "z", long_ident }[vh_below(4)]);
	S.kind = (int)vh_below(5); S.n = 0; S.before = strdup(""); S.path = new_path("s", 0); S.fd = -1; literal(S.path);
	if (S.kind == 3) { int pp[2]; if (pipe2(pp, O_CLOEXEC)) vh_inconclusive("pipe"); S.f = fdopen(pp[1], "w"); S.fd = pp[0]; fcntl(pp[0], F_SETPIPE_SZ, 1 << 20); }
	else if (S.kind == 4) { S.mem = NULL; S.f = open_memstream(&S.mem, &S.memn); vh_count("streams without descriptor", 1); }
	else {
		if (S.kind) { FILE *o = fopen(S.path, "w"); free(S.before); S.before = strdup("earlier\n"); fputs(S.before, o); fclose(o); }
		S.f = fopen(S.path, S.kind == 0 ? "w" : S.kind == 1 ? "a" : "r+");
		if (vh_chance(30)) setvbuf(S.f, NULL, vh_chance(50) ? _IOFBF : _IOLBF, 16 + vh_below(100));
	}
	if (!S.f) vh_inconclusive("no stream");
	log_stream(ident, S.f); open_s = 1; vh_op("log_stream kind %d", S.kind); vh_count("logs opened", 1);
}
static void do_close_stream(void)
{
	size_t n = 0; char *c; if (!open_s) { log_stream(NULL, NULL); return; }
	log_stream(NULL, NULL); open_s = 0; vh_op("close stream");
	if (S.kind == 3) { size_t cap = 2 << 20; ssize_t k; c = malloc(cap); while ((k = read(S.fd, c + n, cap - n)) > 0) n += k; close(S.fd); }
	else if (S.kind == 4) { c = S.mem; n = S.memn; }
	else c = vh_read_file(S.path, &n);
	VH_CHECK(c != NULL, "file-missing", "the stream's file does not exist");
	check_log(S.kind == 3 ? "pipe stream" : "stream", c, n, S.before, S.r, S.n); free(c); free(S.path); free(S.before);
}
static void do_facility(void)
{
	const char *g; int i = (int)vh_below(20);
	log_set_facility(FAC[i].n); facno = i; g = log_get_facility(); vh_op("facility %s", FAC[i].n);
	VH_CHECK(g && !strcmp(g, FAC[i].n), "facility-reported", "facility \"%s\" was set, \"%s\" is reported", FAC[i].n, g ? g : "(none)"); vh_count("facilities set", 1);
}
static void do_open_sys(void)
{
	char id[40]; if (open_y) return;
	snprintf(id, sizeof id, "sys%d", (int)vh_below(100)); sys_reset(); Y.n = 0;
	log_syslog(id); open_y = 1; vh_op("log_syslog %s", id); vh_count("logs opened", 1);
	VH_CHECK(sysl.open && !sysl.fault, "syslog-open", "the system log was not opened: %s", sysl.fault ? sysl.fault : "no openlog");
	VH_CHECK(facno < 0 || sysl.facility == FAC[facno].v, "facility-used", "the system log was opened with facility 0x%x, \"%s\" was set", sysl.facility, FAC[facno].n);
	VH_CHECK(!strcmp(sysl.ident, id), "syslog-ident", "the system log was opened for \"%s\" instead of \"%s\"", sysl.ident, id);
}
static void do_close_sys(void)
{
	unsigned i; if (!open_y) { log_syslog(NULL); return; }
	log_syslog(NULL); open_y = 0; vh_op("close syslog");
	VH_CHECK(!sysl.open, "syslog-close", "the system log was not closed"); VH_CHECK(!sysl.fault, "syslog-fault", "%s", sysl.fault);
	VH_CHECK(sysl.n == Y.n, "syslog-count", "the system log got %u records, should be %u", sysl.n, Y.n);
	for (i = 0; i < Y.n; i++) {
		record *r = Y.r[i]; const char *m = sysl.r[i].msg; size_t want = r->len < 4095 ? r->len : 4095;
		VH_CHECK(!strncmp(m, r->msg, want) && (m[want] == 0 || r->len > want), "syslog-message", "system log record %u is \"%s\", should be \"%s\"", i, vh_quote(m, strlen(m)), vh_quote(r->msg, r->len));
		VH_CHECK(sysl.r[i].pri == (r->error ? LOG_ERR : LOG_INFO), "syslog-priority", "system log record %u has priority %d", i, sysl.r[i].pri);
		vh_count("system log records matched", 1);
	}
	vh_count("logs read back", 1);
}
static void std_child(void *a)
{
	unsigned i, n = *(unsigned *)a; FILE *f = vh_chance(50) ? stdout : stderr; fprintf(f, "[%c]", f == stdout ? 'o' : 'e');
	log_stream("std", f);
	for (i = 0; i < n; i++) { if (i & 1) log_info("rec-%u %%d%s;", i, i & 2 ? "%s%x" : "%%"); else log_error("rt", "rec-%u %%d%s;", i, i & 2 ? "%s%x" : "%%"); }
	if (n & 1) log_close(); else log_stream(NULL, NULL);
	log_info("dropped;"); fprintf(f, "tail"); fflush(f);
}
static void std_stream(void)   /* a standard stream as log: every body once, in order; the stream survives closing */
{
	vh_result r; unsigned n = 1 + (unsigned)vh_below(9), i; char *p, *t; char b[64];
	vh_child(&r, std_child, &n); t = r.outlen ? r.out : r.err; p = t;
	VH_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "std-stream-status", "logging to a standard stream ends with 0x%x: %s", r.status, r.err);
	for (i = 0; i < n; i++) { char *q; snprintf(b, sizeof b, "rec-%u %%d%s;", i, i & 2 ? "%s%x" : "%%"); q = strstr(p, b); VH_CHECK(q && !strstr(q + 1, b), "std-stream-record", "record %u on a standard stream: \"%s\"", i, t); p = q + strlen(b); }
	VH_CHECK(strstr(p, "tail") && !strstr(p, "dropped"), "std-stream-closed", "after closing: \"%s\"", t);
	vh_result_free(&r); vh_count("standard stream logs", 1);
}
/* records are written to full pipes, with slow readers, while signals arrive */
static unsigned long ticked; static void on_tick(int s) { (void)s; ticked++; }
static pid_t slow_reader(int fd, const char *fifo, const char *out)
{
	pid_t c; fflush(NULL); c = fork(); if (c < 0) vh_inconclusive("fork");
	if (!c) { char b[4096]; ssize_t n = 0; int o = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0600); prctl(PR_SET_PDEATHSIG, SIGKILL); { int q; for (q = 3; q < 200; q++) if (q != fd && q != o) close(q); } if (fifo) fd = open(fifo, O_RDONLY); if (o < 0 || fd < 0) _exit(1); usleep(2000); while ((n = read(fd, b, 1 + (size_t)(n * 37 + 511) % 2048)) > 0) { if (__real_write(o, b, (size_t)n) != n) _exit(2); usleep(400); } _exit(0); }
	return c;
}
static void storm(void)
{
	static timer_t t; static int have; struct sigevent ev; struct sigaction sa; struct itimerspec it; unsigned n = 20 + (unsigned)vh_below(80); int st, use_f, use_s; pid_t rf = -1, rs = -1; char *fifo = NULL, *c; size_t cn; unsigned long t0 = ticked;
	do_close_file(); do_close_stream(); do_close_sys();
	if (!have) { memset(&ev, 0, sizeof ev); ev.sigev_notify = SIGEV_SIGNAL; ev.sigev_signo = SIGUSR2; if (timer_create(CLOCK_MONOTONIC, &ev, &t) < 0) vh_inconclusive("timer_create"); have = 1; }
	memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sigaction(SIGUSR2, &sa, NULL);
	use_s = vh_chance(70); use_f = !use_s || vh_chance(40); snprintf(ident, sizeof ident, "storm");
	if (use_f) { fifo = strdup(vh_path("fifo%llu", (unsigned long long)vh_case_index)); unlink(fifo); if (mkfifo(fifo, 0600)) vh_inconclusive("mkfifo"); F.path = new_path("q", 0); literal(F.path); F.before = strdup(""); F.n = 0; rf = slow_reader(-1, fifo, F.path); vclock_on = 1; log_file(ident, fifo); vclock_on = 0; open_f = 1; }
	if (use_s) { int pp[2]; if (pipe2(pp, O_CLOEXEC)) vh_inconclusive("pipe"); fcntl(pp[1], F_SETPIPE_SZ, 4096); S.path = new_path("q", 0); literal(S.path); S.before = strdup(""); S.n = 0; S.kind = 0; S.f = fdopen(pp[1], "w"); rs = slow_reader(pp[0], NULL, S.path); close(pp[0]); log_stream(ident, S.f); open_s = 1; }
	memset(&it, 0, sizeof it); it.it_value.tv_nsec = it.it_interval.tv_nsec = 100000 + (long)vh_below(400000);
	no_children = 1; timer_settime(t, 0, &it, NULL); while (n--) emit(); memset(&it, 0, sizeof it); timer_settime(t, 0, &it, NULL); no_children = 0;
	vh_op("%lu signals arrived", ticked - t0); vh_count("signals while records were written to pipes", ticked - t0);
	if (use_s) { log_stream(NULL, NULL); open_s = 0; VH_CHECK(waitpid(rs, &st, 0) == rs && !st, "reader", "the reader ended with 0x%x", st); c = vh_read_file(S.path, &cn); check_log("pipe stream", c, cn, "", S.r, S.n); free(c); unlink(S.path); free(S.path); free(S.before); vh_count("streams to full pipes", 1); }
	if (use_f) { log_file(NULL, NULL); open_f = 0; VH_CHECK(waitpid(rf, &st, 0) == rf && !st, "reader", "the reader ended with 0x%x", st); c = vh_read_file(F.path, &cn); check_log("named pipe", c, cn, "", F.r, F.n); free(c); unlink(F.path); unlink(fifo); free(fifo); free(F.path); free(F.before); vh_count("log files that are full pipes", 1); }
}
void vh_case(uint64_t idx)
{
	unsigned k, ops = 20 + (unsigned)vh_below(100), combos = 0; uint64_t h = 0; static const char *tz[] = { "UTC", "EST5EDT", "XYZ-5:30", "PST8" };
	nall = 0; seq = 0; facno = -1; open_f = open_s = open_y = 0; nfile = 0; sys_reset(); full = 1; log_option(LOG_OPTION_FULL);
	setenv("TZ", tz[vh_below(4)], 1); tzset();
	vclock_s = 1000000000 + (long)vh_below(700000000); eintr_percent = vh_chance(50) ? 1 + (int)vh_below(40) : 0; eintr_injected = 0;
	if (vh_chance(20)) { log_close(); emit(); }
	for (k = 0; k < ops; k++) {
		int w = (int)vh_below(100); h = vh_mix(h, w);
		vclock_s += (long)vh_below(5000);
		if (w < 60) emit();
		else if (w < 67) do_open_file();
		else if (w < 74) do_open_stream();
		else if (w < 80) { if (!open_y) { if (vh_chance(60)) do_facility(); do_open_sys(); } }
		else if (w < 83) do_close_file();
		else if (w < 86) do_close_stream();
		else if (w < 89) do_close_sys();
		else if (w < 93) { full = vh_chance(60); log_option(full ? LOG_OPTION_FULL : LOG_OPTION_NO_FULL); vh_op("option %s", full ? "full" : "short"); if (!full) vh_count("short option", 1); }
		else if (w < 95) do_facility();   /* an open log keeps its own */
		else if (w < 97) {  /* close everything at once, twice; contents are checked through the singles' paths */
			int f = open_f, s = open_s, y = open_y; size_t n = 0; char *c;
			log_close(); if (vh_chance(50)) log_close(); vh_op("close everything"); vh_count("everything closed", 1);
			open_f = open_s = open_y = 0;
			if (f) { c = vh_read_file(F.path, &n); VH_CHECK(c, "file-missing", "the log file %s does not exist", F.path); check_log("file", c, n, F.before, F.r, F.n); free(c); free(F.path); free(F.before); }
			if (s) { n = 0; if (S.kind == 3) { size_t cap = 2 << 20; ssize_t q; c = malloc(cap); while ((q = read(S.fd, c + n, cap - n)) > 0) n += q; close(S.fd); } else if (S.kind == 4) { c = S.mem; n = S.memn; } else c = vh_read_file(S.path, &n); check_log("stream", c, n, S.before, S.r, S.n); free(c); free(S.path); free(S.before); }
			if (y) { open_y = 1; /* already closed: only compare */ log_syslog(NULL); open_y = 0; VH_CHECK(sysl.n == Y.n && !sysl.open && !sysl.fault, "syslog-count", "the system log got %u records, should be %u (%s)", sysl.n, Y.n, sysl.fault ? sysl.fault : "-"); }
		}
		combos |= 1u << (open_f + 2 * open_s + 4 * open_y);
	}
	if (vh_chance(4)) storm();
	do_close_file(); do_close_stream(); do_close_sys(); log_close(); emit();
	if (idx % 8 == 0) std_stream();
	VH_CHECK(!sysl.fault, "syslog-fault", "%s", sysl.fault);
	vh_count("writes interrupted", eintr_injected); vh_count("combinations of open logs", (uint64_t)__builtin_popcount(combos));
	eintr_percent = 0;
	vh_digest(h); vh_digest(nall); if (__builtin_popcount(combos) >= 4) vh_nontrivial();
	if (idx < 2) vh_sample("%u records, %d combinations of open logs, %lu interrupted writes", nall, __builtin_popcount(combos), eintr_injected);
	while (nall) { free(all[--nall]->msg); free(all[nall]); }
}
#else
/* ---------------- C21 ---------------- */
typedef struct { char *path; record **r; unsigned n, cap; char *before; } lf;
static lf L[3000]; static unsigned nL;
static lf *file_for(const char *path) { unsigned i; for (i = 0; i < nL; i++) if (!strcmp(L[i].path, path)) return &L[i]; if (nL == 3000) vh_inconclusive("too many files"); memset(&L[nL], 0, sizeof *L); L[nL].path = strdup(path); L[nL].before = strdup(""); return &L[nL++]; }
static void expand(const char *pat, long t, char *out, size_t n) { time_t x = t; struct tm b; localtime_r(&x, &b); strftime(out, n, pat, &b); }
static int fds_on(const char *path, int *total)
{
	DIR *d = opendir("/proc/self/fd"); struct dirent *e; int n = 0, self = dirfd(d); *total = 0;
	while ((e = readdir(d))) { char l[64], t[4096]; ssize_t k; if (e->d_name[0] == '.' || atoi(e->d_name) == self) continue; snprintf(l, sizeof l, "/proc/self/fd/%s", e->d_name); k = readlink(l, t, sizeof t - 1); if (k < 0) continue; t[k] = 0; (*total)++; if (path && !strcmp(t, path)) n++; }
	closedir(d); return n;
}
static unsigned walked; static void sweep(const char *dir)
{
	DIR *d = opendir(dir); struct dirent *e; if (!d) return;
	while ((e = readdir(d))) {
		char p[4200]; struct stat st; unsigned i;
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
		if (lstat(p, &st)) continue;
		if (S_ISDIR(st.st_mode)) { sweep(p); continue; }
		for (i = 0; i < nL && strcmp(L[i].path, p); i++) ;
		VH_CHECK(i < nL, "file-foreign", "the file %s exists, but the pattern never named it", p);
		walked++;
	}
	closedir(d);
}
static void rm_rf(const char *dir)
{
	DIR *d = opendir(dir); struct dirent *e; size_t sl = strlen(vh_scratch);
	if (strncmp(dir, vh_scratch, sl) || strncmp(vh_scratch, "/tmp/", 5)) return;
	if (d) { while ((e = readdir(d))) { char p[4200]; struct stat st; if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); if (!lstat(p, &st) && S_ISDIR(st.st_mode)) rm_rf(p); else unlink(p); } closedir(d); }
	rmdir(dir);
}
void vh_case(uint64_t idx)
{
	static const char *tz[] = { "UTC", "EST5EDT", "XYZ-5:30", "LHST-10:30" };
	static const char *const pats[] = { "%Y-%m-%d.log", "%Y/%m/%d/%H.log", "log-%H%M", "%S", "x%%y-%M", "%j/%U.%H", "%a-%d/%b/a.%H", "%s", "plain.log", "%y%m%d-%H%M%S", "%e_%I", "deep/%Y/er/%H/file-%M.%S.log", "%d/%d", "%F/%T", "%A.log", "%B/%A", "%-d/%-H/%-M", "%A/%j/x%-S", "%-H-%B" };
	char root[2000], pat[3000], cur[4096] = ""; const char *given; int cwd = -1; unsigned k, recs = 10 + (unsigned)vh_below(60), i, changes = 0, back = 0; int base, total, n, isopen; const char *p;
	nall = 0; seq = 0; nL = 0; full = 1; log_option(LOG_OPTION_FULL); setenv("TZ", tz[vh_below(4)], 1); tzset();
	eintr_percent = vh_chance(30) ? 15 : 0; eintr_injected = 0;
	snprintf(root, sizeof root, "%s/r%llu", vh_scratch, (unsigned long long)idx); mkdir(root, 0755);
	p = pats[vh_below(sizeof pats / sizeof *pats)]; snprintf(pat, sizeof pat, "%s/%s%s", root, vh_chance(20) ? "a/b c/" : "", p);
	if (vh_chance(15)) {   /* long names of directories */
		size_t room = 600 + vh_below(1500), w = (size_t)snprintf(pat, sizeof pat, "%s/", root);
		while (w < room) { size_t c = 1 + vh_below(120); memset(pat + w, 'l', c); w += c; pat[w++] = '/'; }
		strcpy(pat + w, p); vh_count("long names", 1); strcpy(cur, "");
	}
	else if (vh_chance(20)) {   /* many conversions, each of which stands for several times its length */
		static const char *const cv[] = { "%F", "%T", "%A", "%B", "%c", "%F", "%D", "%R", "%Y" }; size_t w = (size_t)snprintf(pat, sizeof pat, "%s/", root), most = 5 + vh_below(vh_chance(50) ? 130 : 30), part = 0, x; int big = vh_chance(40);
		for (x = 0; x < most; x++) {
			const char *c = cv[vh_below(9)]; char e[4096], keep[3000]; size_t l; if (!strcmp(c, "%D")) c = "%e"; if (big) c = vh_chance(80) ? "%c" : "%F"; memcpy(keep, pat, w); keep[w] = 0;
			if (part > 180) { pat[w++] = '/'; part = 0; }
			w += (size_t)sprintf(pat + w, "%s", c); part += 26; if (!strcmp(c, "%A") && vh_chance(80)) { pat[w++] = '-'; pat[w] = 0; }
			/* at any time the expansion has to fit into three times the length and 1024 bytes */
			expand(pat, 1000000000 + 86400 * 2, e, sizeof e); l = strlen(e) + 12 * (x + 1) / 4 + 40; if (l > 3 * strlen(pat) + 1000 || l > 3500 || !e[0]) { strcpy(pat, keep); w = strlen(pat); while (pat[w - 1] == '/') pat[--w] = 0; break; }
		}
		{ char e[4096]; expand(pat, 1000000000, e, sizeof e); vh_max("longest expansion beyond three times the pattern", strlen(e) > 3 * strlen(pat) ? strlen(e) - 3 * strlen(pat) : 0); vh_count("patterns of many conversions", 1); }
	}
	given = pat;
	if (vh_chance(30)) { cwd = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC); if (cwd < 0 || chdir(root)) vh_inconclusive("chdir"); given = pat + strlen(root) + 1; vh_op("in the directory %s", root); vh_count("relative patterns", 1); }
	vclock_s = 1000000000 + (long)vh_below(700000000); if (vh_chance(30)) vclock_s = vclock_s / 86400 * 86400 - 5;
	snprintf(ident, sizeof ident, "rotate%d", (int)vh_below(10));
	fds_on(NULL, &base);
	/* one of the coming files may exist already */
	if (vh_chance(40) && !strchr(p, '/') && !strchr(pat + strlen(root) + 1, '/')) { lf *f; FILE *o; expand(pat, vclock_s, cur, sizeof cur); f = file_for(cur); free(f->before); f->before = strdup("from earlier\n"); o = fopen(cur, "w"); fputs(f->before, o); fclose(o); cur[0] = 0; }
	isopen = 0;
	for (k = 0; k < recs; k++) {
		long step;
		if (!isopen) {
			vclock_on = 1; log_file(ident, given); vclock_on = 0; isopen = 1; vh_op("open \"%s\" at %ld", pat + strlen(root), vclock_s); vh_count("logs opened", 1);
			expand(pat, vclock_s, cur, sizeof cur); (void)file_for(cur);
			n = fds_on(cur, &total); VH_CHECK(n == 1 && total == base + 1, "descriptors", "after opening: %d descriptors on %s, %d in all, %d before", n, cur, total, base);
		}
		switch (vh_below(8)) {
		case 0: case 1: step = 0; break;
		case 2: step = 1 + (long)vh_below(3); break;
		case 3: step = 60 * (1 + (long)vh_below(3)) - (long)vh_below(2); break;
		case 4: step = 3600 * (1 + (long)vh_below(25)); break;
		case 5: step = 86400 * (1 + (long)vh_below(40)); break;
		case 6: step = -(long)vh_below(100000); back++; break;
		default: step = vh_chance(50) ? -3600 : 86400 * 366; break;
		}
		vclock_s += step;
		{ char now[4096]; expand(pat, vclock_s, now, sizeof now); if (strcmp(now, cur)) changes++; strcpy(cur, now); }
		vh_op("time %ld, %s", vclock_s, cur + strlen(root));
		{ lf *f = file_for(cur); unsigned before = nall; open_f = 0; open_s = 0; open_y = 0; emit(); (void)before; if (f->n == f->cap) { f->cap = f->cap * 2 + 16; f->r = realloc(f->r, f->cap * sizeof *f->r); } f->r[f->n++] = all[nall - 1]; }
		n = fds_on(by_child ? NULL : cur, &total); VH_CHECK((by_child || n == 1) && total == base + 1, "descriptors", "after a record: %d descriptors on %s, %d in all, %d before opening", n, cur, total, base); vh_count("descriptor counts", 1);
		if (vh_chance(8)) {
			log_file(NULL, NULL); isopen = 0; vh_op("close");
			n = fds_on(NULL, &total); VH_CHECK(total == base, "descriptors-closed", "%d descriptors after closing, %d before opening", total, base);
			if (vh_chance(30)) { emit(); }   /* dropped */
		}
	}
	if (vh_chance(50)) log_close(); else log_file(NULL, NULL);
	fds_on(NULL, &total); VH_CHECK(total == base, "descriptors-closed", "%d descriptors after closing, %d before opening", total, base);
	if (cwd >= 0) { if (fchdir(cwd)) vh_inconclusive("fchdir"); close(cwd); }
	walked = 0; sweep(root);
	for (i = 0; i < nL; i++) {
		size_t len; char *c = vh_read_file(L[i].path, &len);
		VH_CHECK(c, "file-missing", "the file %s was not written", L[i].path);
		check_log(L[i].path + strlen(root), c, len, L[i].before, L[i].r, L[i].n); free(c);
	}
	vh_count("rotations", changes); vh_count("files compared", nL); vh_count("steps back in time", back); vh_count("writes interrupted", eintr_injected); eintr_percent = 0;
	rm_rf(root);
	vh_digest(changes * 1000 + nL); vh_digest(vh_hash_bytes(pat + strlen(root), strlen(pat + strlen(root)))); vh_digest(vclock_s);
	if (changes > 1 && back) vh_nontrivial();
	if (idx < 3) vh_sample("pattern \"%s\": %u records, %u changes of name, %u files", pat + strlen(root) + 1, recs, changes, nL);
	for (i = 0; i < nL; i++) { free(L[i].path); free(L[i].r); free(L[i].before); }
	while (nall) { free(all[--nall]->msg); free(all[nall]); }
}
#endif
