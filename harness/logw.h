/* logw.h -- interposed clock, system log and write(2).  Link with --wrap for every name in LOGW. */
#ifndef LOGW_H
#define LOGW_H
#include "vh.h"
#include <time.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <syslog.h>
/* ---- clock ---- */
static int vclock_on; static long vclock_s, vclock_us;
extern time_t __real_time(time_t *); extern int __real_gettimeofday(struct timeval *, void *); extern int __real_clock_gettime(clockid_t, struct timespec *);
time_t __wrap_time(time_t *t) { time_t r; if (!vclock_on) return __real_time(t); r = vclock_s; if (t) *t = r; return r; }
int __wrap_gettimeofday(struct timeval *v, void *z) { if (!vclock_on) return __real_gettimeofday(v, z); v->tv_sec = vclock_s; v->tv_usec = vclock_us; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!vclock_on) return __real_clock_gettime(c, t); t->tv_sec = vclock_s; t->tv_nsec = vclock_us * 1000; return 0; }
/* ---- system log ---- */
#define SYS_MAX 20000
typedef struct { int pri, fac; char *msg; } sysrec;
static int sysl_fd = -1;
static struct { int open, facility, bad; char ident[200]; sysrec *r; unsigned n; const char *fault; } sysl;
extern void __real_openlog(const char *, int, int); extern void __real_closelog(void);
void __wrap_openlog(const char *id, int opt, int fac) { (void)opt; if (sysl.open) sysl.fault = "openlog while open"; sysl.open = 1; sysl.facility = fac; snprintf(sysl.ident, sizeof sysl.ident, "%s", id ? id : "(null)"); }
void __wrap_closelog(void) { sysl.open = 0; }
void __wrap_vsyslog(int pri, const char *f, va_list ap)
{
	char *m = NULL; int on = vclock_on; vclock_on = 0;
	if (vasprintf(&m, f, ap) < 0) m = strdup("(format error)");
	if (sysl_fd >= 0) { extern ssize_t __real_write(int, const void *, size_t); char h[64]; int n = snprintf(h, sizeof h, "<%d>", LOG_PRI(pri)); (void)!__real_write(sysl_fd, h, n); (void)!__real_write(sysl_fd, m, strlen(m)); (void)!__real_write(sysl_fd, "\n", 1); }
	if (!sysl.open) sysl.fault = "record sent to the closed system log";
	if (!sysl.r) sysl.r = calloc(SYS_MAX, sizeof *sysl.r);
	if (sysl.n < SYS_MAX) { sysl.r[sysl.n].pri = LOG_PRI(pri); sysl.r[sysl.n].fac = (pri & LOG_FACMASK) ? (pri & LOG_FACMASK) : sysl.facility; sysl.r[sysl.n++].msg = m; } else free(m);
	vclock_on = on;
}
void __wrap_syslog(int pri, const char *f, ...) { va_list ap; va_start(ap, f); __wrap_vsyslog(pri, f, ap); va_end(ap); }
void __wrap___vsyslog_chk(int pri, int flag, const char *f, va_list ap) { (void)flag; __wrap_vsyslog(pri, f, ap); }
void __wrap___syslog_chk(int pri, int flag, const char *f, ...) { va_list ap; (void)flag; va_start(ap, f); __wrap_vsyslog(pri, f, ap); va_end(ap); }
static __attribute__((unused)) void sys_reset(void) { unsigned i; for (i = 0; i < sysl.n; i++) free(sysl.r[i].msg); sysl.n = 0; sysl.fault = NULL; }
/* ---- write(2) interrupted by signals ---- */
static int eintr_percent; static unsigned long eintr_injected; static int eintr_left;
extern ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (eintr_percent && fd > 2) {
		if (eintr_left > 0) { eintr_left--; eintr_injected++; errno = EINTR; return -1; }
		if (vh_chance(eintr_percent)) { eintr_left = (int)vh_below(3); eintr_injected++; errno = EINTR; return -1; }
	}
	return __real_write(fd, b, n);
}
/* ---- host names: the first case of the process chooses ---- */
static int host_kind; extern int __real_gethostname(char *, size_t);
int __wrap_gethostname(char *b, size_t n)
{
	static const char *const h[] = { "h", "short.sub.example.org", "a-host-name-of-sixty-three-bytes-which-is-the-longest-possible-x", "0x.y", "UPPER-lower" };
	const char *s; if (!host_kind) return __real_gethostname(b, n);
	s = h[host_kind - 1];
	if (strlen(s) >= n) { memcpy(b, s, n); errno = ENAMETOOLONG; return -1; }
	strcpy(b, s); return 0;
}
/* ---- matching of one record in a log ----
   returns the position behind the record, or NULL with *why set */
typedef struct { int error; const char *routine; char *msg; size_t len; long t; int full; char ident[128]; long pid; } record;
static char host_short[256];
static __attribute__((unused)) void log_host(void) { char *p; host_kind = (int)(vh_case_index % 6); gethostname(host_short, sizeof host_short - 1); if ((p = strchr(host_short, '.'))) *p = 0; host_short[63] = 0; }
static __attribute__((unused)) const char *match_record(const char *p, const char *end, const record *r, char *why, size_t wn)
{
	size_t want = r->len < 4095 ? r->len : 4095, pre; const char *m = memmem(p, end - p, r->msg, want), *q, *nl; char tm[64], pid[32], tag[600]; time_t t = r->t; struct tm b; size_t more;
	if (want == 0) m = NULL;
	if (!m) { snprintf(why, wn, "the record is missing"); return NULL; }
	pre = m - p;
	if (memchr(p, '\n', pre)) { snprintf(why, wn, "something else comes before the record: \"%s\"", vh_quote(p, pre)); return NULL; }
	snprintf(pid, sizeof pid, "%ld", r->pid ? r->pid : (long)getpid());
	localtime_r(&t, &b); asctime_r(&b, tm); tm[24] = 0;
	q = p;
	if (r->full) {
		const char *parts[4] = { tm, host_short, r->ident, pid }; int i;
		for (i = 0; i < 4; i++) { const char *f = *parts[i] ? memmem(q, m - q, parts[i], strlen(parts[i])) : q; if (!f) { snprintf(why, wn, "\"%s\" is missing before the message: \"%s\"", parts[i], vh_quote(p, pre)); return NULL; } q = f + strlen(parts[i]); }
		if ((size_t)(q - p) > strlen(tm) + strlen(host_short) + strlen(r->ident) + strlen(pid) + 12) { snprintf(why, wn, "unexpected text before the message: \"%s\"", vh_quote(p, pre)); return NULL; }
	}
	snprintf(tag, sizeof tag, "%s", r->error && r->routine ? r->routine : "");
	if (*tag) { const char *f = memmem(q, m - q, tag, strlen(tag)); if (!f) { snprintf(why, wn, "the routine name \"%s\" is missing before the message: \"%s\"", tag, vh_quote(p, pre)); return NULL; } }
	if ((size_t)(m - q) > strlen(tag) + 8) { snprintf(why, wn, "unexpected text before the message: \"%s\"", vh_quote(p, pre)); return NULL; }
	more = 0; while (want + more < r->len && m + want + more < end && m[want + more] == r->msg[want + more] ) more++;
	nl = m + want + more;
	if (r->len > want && (nl == end || *nl != '\n')) { nl = m + want; }
	if (nl >= end || *nl != '\n') { snprintf(why, wn, "the record is not ended by a newline behind its message: \"%s\"", vh_quote(m + want, end - m - want < 40 ? end - m - want : 40)); return NULL; }
	return nl + 1;
}
static __attribute__((unused)) void check_log(const char *what, const char *content, size_t n, const char *before, record **rs, unsigned nr)
{
	const char *p = content, *end = content + n; size_t nb = strlen(before); unsigned i; char why[800];
	VH_CHECK(n >= nb && !memcmp(content, before, nb), "old-contents-lost", "%s: the contents from before are gone: \"%s\", should begin \"%s\"", what, vh_quote(content, n), vh_quote(before, nb));
	p += nb;
	for (i = 0; i < nr; i++) {
		const char *q = match_record(p, end, rs[i], why, sizeof why);
		if (!q) vh_fail("record-wrong", "%s: record %u of %u (%s \"%s\", %zu bytes): %s", what, i, nr, rs[i]->error ? "error" : "info", vh_quote(rs[i]->msg, rs[i]->len), rs[i]->len, why);
		p = q; vh_count("log records matched", 1); vh_count("oracle checks", 1);
	}
	VH_CHECK(p == end, "record-extra", "%s: %zu bytes behind the last of %u records: \"%s\"", what, (size_t)(end - p), nr, vh_quote(p, end - p));
	vh_count("logs read back", 1);
}
#endif
