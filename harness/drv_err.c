/* C19: fatal errors, warnings, internal errors */
#include "logw.h"
#include <signal.h>
enum { FATAL, ERRNO_, WARN, INTERNAL };
static const char *const KN[] = { "fatal", "fatal errno", "warning", "internal" };
typedef struct { int kind; const char *routine; char *out; char *msg; size_t len; int err, how; } event;
static struct { event e[300]; int n; const char *prog, *before; int viainit, logclose, file, stream, sys, same, nofull, bad, abrt; char *fpath, *spath, *ypath, *upath, *hpath; } X;
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; log_host(); }
/* the logs are open until the program closes them: an exit handler may still use them */
static void handler(void) { log_info("#from the exit handler#"); if (X.logclose) log_close(); FILE *f = fopen(X.hpath, "w"); fputs("ran", f); fclose(f); }
static void raise_one(event *e)
{
	char *b = vh_arg(e->msg, e->len + 1); size_t half = e->len / 2;
	fputs(e->out, stdout);
	errno = e->err;
#define CALL(fn) do { if (e->how == 0) fn(e->routine, "%s", b); else if (e->how == 1) fn(e->routine, "%.*s%s", (int)half, b, b + half); else fn(e->routine, "%s [%d %c %lu %x %5.2f %% %s]", b, -42, 'q', 1234567890123UL, 0xbeefu, 3.14159, "end"); } while (0)
	switch (e->kind) {
	case FATAL: CALL(err_fatal); break;
	case ERRNO_: CALL(err_fatal_errno); break;
	case WARN: CALL(err_warning); break;
	default: CALL(err_internal); break;
	}
	vh_unarg(b);
}
static const char *a_name(void)   /* a program name: any path whose last component is not empty */
{
	static char b[2][600]; static int w; char *p = b[w ^= 1]; int n = vh_chance(40) ? 0 : 1 + (int)vh_below(5), i, k;
	*p = 0;
	if (vh_chance(40)) for (i = vh_chance(80) ? 1 : 2 + (int)vh_below(2); i; i--) { *p++ = '/'; }
	for (i = 0; i <= n; i++) {
		int len = vh_chance(10) ? 60 + (int)vh_below(30) : 1 + (int)vh_below(9);
		if (i < n && vh_chance(20)) { p += sprintf(p, "%s", vh_chance(50) ? ".." : "."); } else for (k = 0; k < len; k++) *p++ = vh_chance(10) ? "%- ._:\\+"[vh_below(8)] : "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[vh_below(62)];
		if (i < n) for (k = vh_chance(85) ? 1 : 2; k; k--) *p++ = '/';
	}
	*p = 0; return b[w];
}
static const char *base(const char *p) { const char *q = strrchr(p, '/'); return q ? q + 1 : p; }
static void caught(int sig) { (void)sig; }
static void child(void *a)
{
	int i; FILE *u; (void)a;
	if (X.same) { dup2(1, 2); }
	if (X.bad) { int fd = open("/dev/full", O_WRONLY); dup2(fd, X.bad == 1 ? 2 : 1); close(fd); }   /* nothing can be written there */
	if (X.before) err_set_program_name(X.before);
	if (X.prog || X.before || vh_chance(50)) { if (X.viainit && X.prog) maa_init(X.prog); else err_set_program_name(X.prog); }
	{ const char *n = err_program_name(); if (X.prog ? !n || strcmp(n, base(X.prog)) : n && !X.viainit) { fprintf(stderr, "BAD-NAME %s", n ? n : "NULL"); _exit(98); } }
	if (X.nofull) log_option(LOG_OPTION_NO_FULL);
	if (X.file) log_file("id", X.fpath);
	if (X.stream) log_stream("id", fopen(X.spath, "w"));
	if (X.sys) { sysl_fd = open(X.ypath, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); log_syslog("id"); }
	u = fopen(X.upath, "w"); fputs("unflushed output of the program", u);
	atexit(handler);
	if (X.abrt == 1) signal(SIGABRT, SIG_IGN);   /* an abort cannot be prevented by these */
	else if (X.abrt == 2) signal(SIGABRT, caught);
	else if (X.abrt == 3) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGABRT); sigprocmask(SIG_BLOCK, &m, NULL); }
	for (i = 0; i < X.n; i++) raise_one(&X.e[i]);
	printf("[the program goes on]"); fclose(u); fflush(stdout);
	exit(7);
}
static void body(event *e, char **s, size_t *n)
{
	if (e->how < 2) { *s = strdup(e->msg); *n = e->len; }
	else { *n = (size_t)asprintf(s, "%s [%d %c %lu %x %5.2f %% %s]", e->msg, -42, 'q', 1234567890123UL, 0xbeefu, 3.14159, "end"); }
}
static void check_sink(const char *what, const char *path)
{
	size_t n; char *c = vh_read_file(path, &n), *p = c; int i;
	VH_CHECK(c, "log-missing", "%s: no contents", what);
	for (i = 0; i < X.n; i++) {
		char *b, *q; size_t bn, want; body(&X.e[i], &b, &bn); want = bn < 4095 ? bn : 4095;
		q = memmem(p, c + n - p, b, want);
		VH_CHECK(q, "log-message", "%s: the message of the %s (number %d, %zu bytes) is not there, or not in order: \"%s\" in \"%s\"", what, KN[X.e[i].kind], i, bn, vh_quote(b, bn), vh_quote(p, c + n - p));
		if (i == X.n - 1 || strcmp(X.e[i].msg, X.e[X.n - 1].msg)) VH_CHECK(!memmem(q + want, c + n - q - want, b, want), "log-message-twice", "%s: the message of the %s is there twice", what, KN[X.e[i].kind]);
		p = q + want; free(b);
		if (X.e[i].kind == ERRNO_) { const char *se = strerror(X.e[i].err); VH_CHECK(memmem(p, c + n - p, se, strlen(se)), "log-system-error", "%s: the system error \"%s\" is not there", what, se); VH_CHECK(!memmem(p, c + n - p, "(null)", 6), "null-printed", "%s: a null pointer is printed: \"%s\"", what, vh_quote(p, c + n - p)); if (!X.e[i].routine) vh_count("system errors without a routine", 1); }
	}
	if (X.e[X.n - 1].kind != INTERNAL) VH_CHECK(memmem(p, (size_t)(c + n - p), "#from the exit handler#", 23), "handler-log", "%s: the record of an exit handler is not there", what);
	free(c); vh_count("logs compared", 1);
}
void vh_case(uint64_t idx)
{
	static const char *const progs[] = { NULL, "prog", "/usr/local/bin/prog", "./p", "a b/c d", "../../x.y" };
	static const char *const rts[] = { NULL, "routine", "a_routine_with_a_long_name_123", "f" };
	static const int errs[] = { ENOENT, EACCES, EINTR, ENOMEM, EPIPE, EBADF, 0, ENOSPC, 9999 };
	vh_result r; int i, last, alike; uint64_t h = 0; char *t, *p, *end; char pre[64];
	memset(&X, 0, sizeof X);
	X.prog = progs[vh_below(6)]; if (vh_chance(50)) { X.prog = a_name(); vh_count("program names made", 1); } if (vh_chance(20)) X.before = a_name(); X.viainit = vh_chance(30); X.file = vh_chance(40); X.stream = vh_chance(40); X.sys = vh_chance(40); X.same = vh_chance(70); X.nofull = vh_chance(30); X.logclose = vh_chance(50);
	X.fpath = vh_path("f%llu", (unsigned long long)idx); X.spath = vh_path("s%llu", (unsigned long long)idx); X.ypath = vh_path("y%llu", (unsigned long long)idx); X.upath = vh_path("u%llu", (unsigned long long)idx); X.hpath = vh_path("h%llu", (unsigned long long)idx);
	if (vh_chance(20)) { X.same = 0; X.bad = 1 + (int)vh_below(2); }
	X.n = 1 + (int)vh_below(4); alike = 0; if (vh_chance(12)) { X.n = vh_chance(15) ? 270 + (int)vh_below(30) : 5 + (int)vh_below(40); alike = (int)vh_below(3); vh_count("long series of warnings", 1); } X.abrt = (int)vh_below(5);
	for (i = 0; i < X.n; i++) {
		event *e = &X.e[i]; size_t n = X.n > 4 ? vh_below(300) : vh_chance(20) ? 2000 + vh_below(4000) : X.n < 5 && vh_chance(3) ? 1000000 + vh_below(2500000) : vh_chance(8) ? 8000 + vh_below(vh_thorough ? 400000 : 100000) : vh_below(120), k, o;
		e->kind = i < X.n - 1 ? WARN : (int)vh_below(4); e->routine = rts[vh_below(4)]; e->how = (int)vh_below(3); e->err = errs[vh_below(9)];
		if (alike && i) { e->routine = X.e[0].routine; e->how = X.e[0].how; }   /* the same call, */
		o = vh_chance(10) && X.n < 5 ? 3000 + vh_below(9000) : vh_below(60); e->out = malloc(o + 40); snprintf(e->out, 30, "<out%d>", i); for (k = strlen(e->out); k < o; k++) e->out[k] = k % 70 == 69 ? '\n' : '.'; e->out[k] = 0;
		snprintf(pre, sizeof pre, "#%d:%llx#", i, (unsigned long long)vh_u64()); e->msg = malloc(n + 60); strcpy(e->msg, pre); for (k = strlen(pre); k < n + strlen(pre); k++) e->msg[k] = vh_chance(5) ? "%\n\t\\\xe4"[vh_below(5)] : 'a' + (int)vh_below(26); e->msg[k] = 0; if (alike == 2 && i) { free(e->msg); e->msg = strdup(X.e[0].msg); } e->len = strlen(e->msg);   /* or even the same message */
		vh_op("%s routine %s, %zu bytes, errno %d, %zu bytes to stdout before", KN[e->kind], e->routine ? e->routine : "NULL", e->len, e->err, strlen(e->out));
		h = vh_mix(h, (uint64_t)e->kind * 100 + (uint64_t)e->how + e->len * 1000);
	}
	last = X.e[X.n - 1].kind; if (X.abrt && X.abrt < 4) vh_op("SIGABRT %s", X.abrt == 1 ? "ignored" : X.abrt == 2 ? "handled" : "blocked");
	vh_op("program name %s; logs: %s%s%s; stdout and stderr %s", X.prog ? X.prog : "NULL", X.file ? "file " : "", X.stream ? "stream " : "", X.sys ? "syslog" : "", X.bad == 1 ? "apart, standard error full" : X.bad == 2 ? "apart, standard output full" : X.same ? "the same file" : "apart");
	vh_child(&r, child, NULL);
	VH_CHECK(!vh_is_sanitizer(&r) && !(r.out && (strstr(r.out, "Sanitizer") || strstr(r.out, "runtime error:"))), "memory-error", "%s%s", r.err, X.same ? r.out : "");
	VH_CHECK(!r.timed_out, "hang", "the report did not end");
	VH_CHECK(!(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 98 && r.err), "program-name-kept", "with the program name set to %s, the name told back is wrong: %s", X.prog ? X.prog : "NULL", r.err);
	/* how it ends */
	if (last == WARN) VH_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 7, "warning-ends", "after a warning the program ended with 0x%x", r.status);
	else if (last == INTERNAL) VH_CHECK(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT, "internal-ends", "an internal error ended with 0x%x", r.status);
	else {
		char *c; size_t n;
		VH_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1, "fatal-ends", "a %s error ended with 0x%x", KN[last], r.status);
		c = vh_read_file(X.hpath, &n); VH_CHECK(c, "exit-handlers", "exit handlers did not run"); free(c);
		c = vh_read_file(X.upath, &n); VH_CHECK(c && !strcmp(c, "unflushed output of the program"), "output-lost", "buffered output was lost: \"%s\"", c ? c : "(no file)"); free(c);
	}
	/* what was said, and in what order */
	t = X.same ? r.out : r.err; end = t + (X.same ? r.outlen : r.errlen); p = t;
	if (!X.same && X.bad != 2) { char *o = r.out; for (i = 0; i < X.n; i++) { char *q = strstr(o, X.e[i].out); VH_CHECK(q, "stdout-lost", "output %d before the report is lost: \"%s\"", i, vh_quote(r.out, r.outlen)); o = q + strlen(X.e[i].out); } }
	if (X.bad) vh_count(X.bad == 1 ? "standard error full" : "standard output full", 1);
	for (i = 0; i < X.n && X.bad != 1; i++) {
		event *e = &X.e[i]; char *b, *q; size_t bn; const char *sig;
		body(e, &b, &bn);
		if (X.same) { size_t on = strlen(e->out); VH_CHECK((size_t)(end - p) >= on && !memcmp(p, e->out, on), "stdout-order", "the output made before report %d does not come before it: \"%s\"", i, vh_quote(p, end - p)); p += on; }
		q = memmem(p, end - p, b, bn);
		VH_CHECK(q, "message-incomplete", "the %s's message (%zu bytes) is not complete on standard error: \"%s\", should be \"%s\"", KN[e->kind], bn, vh_quote(p, end - p), vh_quote(b, bn));
		if (X.prog) { const char *f = memmem(p, q - p, base(X.prog), strlen(base(X.prog))); VH_CHECK(f, "program-name", "the program name \"%s\" is missing before the message: \"%s\"", base(X.prog), vh_quote(p, q - p)); VH_CHECK(f == p, "program-name", "the report does not begin with the program name: \"%s\"", vh_quote(p, q - p)); }
		if (e->routine) VH_CHECK(memmem(p, q - p, e->routine, strlen(e->routine)), "routine-name", "the routine name \"%s\" is missing before the message: \"%s\"", e->routine, vh_quote(p, q - p));
		VH_CHECK((size_t)(q - p) < 60 + strlen(X.prog ? base(X.prog) : "") + strlen(e->routine ? e->routine : "") && !memmem(p, q - p, "(null)", 6) && !memmem(p, q - p, "/", 1), "prefix-wrong", "the message is preceded by \"%s\"", vh_quote(p, q - p));
		p = q + bn;
		if (e->kind == ERRNO_) { sig = strerror(e->err); q = memmem(p, end - p, sig, strlen(sig)); VH_CHECK(q, "system-error", "the pending system error %d \"%s\" is not named: \"%s\"", e->err, sig, vh_quote(p, end - p)); p = q + strlen(sig); }
		if (e->kind == ERRNO_) VH_CHECK(!memmem(p - 60 < t ? t : p - 60, p - (p - 60 < t ? t : p - 60), "(null)", 6), "null-printed", "a null pointer is printed: \"%s\"", vh_quote(t, end - t)); VH_CHECK(p < end && *p == '\n', "message-end", "the message is not ended by a newline: \"%s\"", vh_quote(p, end - p)); p++;
		free(b); vh_count("reports compared", 1); vh_count("bytes of messages", bn);
	}
	if (last == WARN && X.bad != 2) { char *o = X.same ? p : r.out; VH_CHECK(strstr(o, "[the program goes on]"), "warning-output", "the program's output after a warning is lost"); if (X.same) VH_CHECK(!strncmp(p, "[the program goes on]", 20) , "stderr-extra", "extra text after a warning: \"%s\"", vh_quote(p, end - p)); }
	if (X.file) check_sink("log file", X.fpath);
	if (X.stream) check_sink("log stream", X.spath);
	if (X.sys) check_sink("system log", X.ypath);
	if (last == INTERNAL && X.abrt && X.abrt < 4) vh_count("aborts with the signal ignored, handled or blocked", 1);
	vh_count(last == FATAL ? "fatal errors" : last == ERRNO_ ? "fatal system errors" : last == WARN ? "warnings last" : "internal errors", 1);
	if (X.file && X.stream && X.sys) vh_count("reports to all three logs", 1);
	for (i = 0; i < X.n; i++) { free(X.e[i].out); free(X.e[i].msg); }
	unlink(X.fpath); unlink(X.spath); unlink(X.ypath); unlink(X.upath); unlink(X.hpath);
	vh_result_free(&r);
	vh_digest(h); if (X.file || X.stream || X.sys || X.n > 1) vh_nontrivial();
	if (idx < 2) vh_sample("%d reports, the last a %s one, program name %s, logs %d%d%d", X.n, KN[last], X.prog ? X.prog : "NULL", X.file, X.stream, X.sys);
}
