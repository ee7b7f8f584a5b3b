/* C23: pr_filter and pr_readwrite under hostile schedules */
#include "prkit.h"
static int f_eintr, f_short, f_again, f_delay, f_zero; static unsigned long n_eintr, n_short, n_again, n_zero, n_delay;
static void maybe_delay(void) { if (f_delay && vh_chance(f_delay)) { struct timespec t = {0, (long)(1000 + vh_below(400000))}; n_delay++; nanosleep(&t, NULL); } }
extern ssize_t __real_read(int, void *, size_t), __real_write(int, const void *, size_t);
extern int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *), __real_poll(struct pollfd *, nfds_t, int), __real_pselect(int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (!in_lib || !is_transfer(fd)) return __real_read(fd, b, n);
	maybe_delay();
	if (vh_chance(f_eintr)) { n_eintr++; errno = EINTR; return -1; }
	if (vh_chance(f_again) && (fcntl(fd, F_GETFL) & O_NONBLOCK)) { n_again++; errno = EAGAIN; return -1; }
	if (n > 1 && vh_chance(f_short)) { size_t m = vh_chance(50) ? 1 + vh_below(10) : 1 + vh_below(n); if (m < n) n = m; n_short++; }
	return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!in_lib || !is_transfer(fd)) return __real_write(fd, b, n);
	maybe_delay();
	if (vh_chance(f_eintr)) { n_eintr++; errno = EINTR; return -1; }
	if (vh_chance(f_again) && (fcntl(fd, F_GETFL) & O_NONBLOCK)) { n_again++; errno = EAGAIN; return -1; }
	if (n > 1 && vh_chance(f_short)) { size_t m = vh_chance(50) ? 1 + vh_below(10) : 1 + vh_below(n); if (m < n) n = m; n_short++; }
	return __real_write(fd, b, n);
}
static void zero(fd_set *a) { if (a) FD_ZERO(a); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
	if (!in_lib) return __real_select(n, r, w, e, t);
	maybe_delay();
	if (vh_chance(f_eintr)) { n_eintr++; errno = EINTR; return -1; }
	if (t && vh_chance(f_zero)) { n_zero++; zero(r); zero(w); zero(e); return 0; }
	return __real_select(n, r, w, e, t);
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m)
{
	if (in_lib && vh_chance(f_eintr)) { n_eintr++; errno = EINTR; return -1; }
	if (in_lib && t && vh_chance(f_zero)) { n_zero++; zero(r); zero(w); zero(e); return 0; }
	return __real_pselect(n, r, w, e, t, m);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t)
{
	if (in_lib && vh_chance(f_eintr)) { n_eintr++; errno = EINTR; return -1; }
	if (in_lib && t >= 0 && vh_chance(f_zero)) { nfds_t i; n_zero++; for (i = 0; i < n; i++) p[i].revents = 0; return 0; }
	return __real_poll(p, n, t);
}
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; pr_setup(); tick_setup(); }
static size_t pick_size(int big)
{
	switch (vh_below(10)) { case 0: return 0; case 1: return 1; case 2: return vh_below(20); case 3: return 4095 + vh_below(3); case 4: return 65535 + vh_below(3); case 5: return vh_below(1000); case 6: return vh_below(200000); case 7: return big ? vh_below(vh_thorough ? 12000000 : 1500000) : vh_below(5000); default: return vh_below(20000); }
}
static uint64_t hcase;
static void one(int k)
{
	static const int pc[] = { 0, 0, 5, 30, 80 };
	char ctl[3000], *c = ctl, *cp = vh_path("c%d.%llu", k, (unsigned long long)vh_case_index), *dp = vh_path("d%d.%llu", k, (unsigned long long)vh_case_index), *ep = vh_path("e%d.%llu", k, (unsigned long long)vh_case_index), *cmd, *in, *out, *want, *db, *eb;
	int kind, ends, st = 0, sigend = 0, got = -1, slow, direct, other = 0, opid = 0, ofd = -1, ofd2 = -1, save, efd; long kk = 1, rc, wc, delay; size_t n, nw, i, max, en; uint64_t seed = vh_u64(); fdset_t a, b; const char *d; unsigned long long dn = 0, dgst = 0; double t0;
	f_eintr = pc[vh_below(5)]; f_short = pc[vh_below(5)]; f_again = pc[vh_below(5)]; f_zero = pc[vh_below(5)]; f_delay = vh_chance(20) ? 20 : 0; wait_eintr_percent = vh_chance(50) ? 60 : 0;
	slow = f_eintr > 50 || f_short > 20 || f_again > 20 || f_delay;
	kind = (int)vh_below(6); n = pick_size(!slow);
	if (slow && n > 30000) n = 30000 + n % 20000;
	rc = (long[]) { 1, 7, 100, 4096, 65536, 70000 }[vh_below(6)]; wc = (long[]) { 1, 10, 1000, 4096, 70000, 1000000 }[vh_below(6)];
	if (kind == 4 && !slow && vh_chance(30)) n = 66000 + vh_below(300000);
	if (n > 20000) { if (rc < 100) rc = 3000; if (wc < 1000) wc = 5000; }
	if (kind == 1) { kk = 2 + (long)vh_below(4); if (n < 20000 && vh_chance(20)) kk = 20; }
	if (kind == 2) kk = 2 + (long)vh_below(50);
	if (kind == 4) { kk = (long)pick_size(!slow); if (n > 66000 && vh_chance(70)) kk = 66000 + (long)vh_below(300000); if (slow && kk > 50000) kk = 50000; if (kk > 20000 && wc < 1000) wc = 7000; }
	{ long o = kind == 1 ? (long)n * kk : kind == 4 ? kk : (long)n; if (wc < o / 3000) wc = o / 3000 + 1; if (rc < (long)n / 3000) rc = (long)n / 3000 + 1; }
	delay = vh_chance(30) && n / (size_t)rc < 60 && (kind == 4 ? kk : (long)n) / wc < 200 ? (long)vh_below(2000) : 0;
	st = vh_chance(25) ? 1 + (int)vh_below(255) : 0; ends = 0;
	if (vh_chance(6)) { sigend = (int[]) { SIGTERM, SIGKILL, SIGUSR2, SIGABRT }[vh_below(4)]; st = 1; }
	if (vh_chance(10)) c += sprintf(c, "sleep %d\n", (int)vh_below(20000));
	c += sprintf(c, "filter %d %ld %ld %ld %ld %llu\ndigest %s\n", kind, kk, rc, wc, delay, (unsigned long long)seed, dp);
	if (vh_chance(20)) { ends = 1; c += sprintf(c, "close 1\nsleep %d\n", (int)vh_below(10000)); }
	c += sigend ? sprintf(c, "sig %d\n", sigend) : sprintf(c, "exit %d\n", st);
	write_ctl(cp, ctl); if (asprintf(&cmd, "vhprobe %s", cp) < 0) _exit(20);
	in = gen(n, vh_u64()); { char *x = vh_exact(in, n); free(in); in = x; }
	/* what has to come back */
	nw = kind == 0 || kind == 3 ? n : kind == 1 ? n * (size_t)kk : kind == 2 ? (n + (size_t)kk - 1) / (size_t)kk : kind == 4 ? (size_t)kk : 0;
	if (kind == 4) want = gen(nw, seed);
	else { want = malloc(nw + 1); for (i = 0; i < nw; i++) want[i] = kind == 1 ? in[i / (size_t)kk] : kind == 2 ? in[i * (size_t)kk] : in[i]; }
	max = nw + (vh_chance(40) ? 0 : vh_chance(30) ? 1 : 1 + vh_below(5000));
	out = malloc(max ? max : 1); { size_t q; for (q = 0; q < max; q++) out[q] = 0x6b; }
	direct = vh_chance(40); other = vh_chance(30);
	vh_op("filter kind %d k %ld: %zu bytes in, %zu out, buffer %zu, chunks %ld/%ld, delay %ld us, ends %s %d; injected: interrupted %d%% short %d%% not ready %d%% no event %d%%%s%s", kind, kk, n, nw, max, rc, wc, delay, sigend ? "by signal" : "with", sigend ? sigend : st, f_eintr, f_short, f_again, f_zero, direct ? ", pr_readwrite" : "", other ? ", another process" : "");
	fd_list(&a);
	if (other) { char t[100]; char *op = vh_path("o%d.%llu", k, (unsigned long long)vh_case_index), *oc; snprintf(t, sizeof t, "waiteof\nexit 3\n"); write_ctl(op, t); if (asprintf(&oc, "vhprobe %s", op) < 0) _exit(20); if (!direct || vh_chance(50)) { LIB(opid = pr_open(oc, PR_CREATE_STDIN | PR_CREATE_STDOUT, &ofd, &ofd2, NULL)); } free(oc); }
	if ((efd = open(ep, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644)) < 0 || (save = fcntl(2, F_DUPFD_CLOEXEC, 100)) < 0) { perror(ep); _exit(20); }
	fflush(stderr);
	dup2(efd, 2);
	if (vh_chance(30)) ticks(200000 + (long)vh_below(2000000));
	t0 = now_s();
	if (direct) {
		int fi = -1, fo = -1;
		LIB(pr_open(cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT | (vh_chance(30) ? PR_STDERR_TO_STDOUT : 0), &fi, &fo, NULL));
		if (other && !opid) { char *op = vh_path("o%d.%llu", k, (unsigned long long)vh_case_index), *oc; if (asprintf(&oc, "vhprobe %s", op) < 0) _exit(20); LIB(opid = pr_open(oc, PR_CREATE_STDIN | PR_CREATE_STDOUT, &ofd, &ofd2, NULL)); free(oc); }
		LIB(got = pr_readwrite(fi, fo, in, (int)n, out, (int)max));
	} else LIB(got = pr_filter(cmd, in, (int)n, out, (int)max));
	ticks(0);
	fflush(stderr); dup2(save, 2); close(save); close(efd);
	if (getenv("VH_SLOW") && now_s() - t0 > 2) fprintf(stderr, "SLOW %.1f kind %d k %ld n %zu nw %zu rc %ld wc %ld delay %ld inj %d %d %d %d %d\n", now_s()-t0, kind, kk, n, nw, rc, wc, delay, f_eintr, f_short, f_again, f_zero, f_delay);
	vh_max("longest filter, ms", (uint64_t)((now_s() - t0) * 1000));
	eb = vh_read_file(ep, &en);
	VH_CHECK(got == (int)nw, "length", "the filter's output has %zu bytes, returned is %d; stderr \"%s\"", nw, got, vh_quote(eb, en));
	VH_CHECK(!memcmp(out, want, nw), "output-wrong", "the output (%zu bytes) differs", nw);
	for (i = nw; i < max; i++) if (out[i] != 0x6b) vh_fail("written-behind", "byte %zu of the buffer, behind the output of %zu bytes, was written", i, nw);
	VH_CHECK(st ? en > 0 : en == 0, "warning", "the filter ended with %d, on standard error: \"%s\"", st, vh_quote(eb, en));
	db = vh_read_file(dp, NULL); VH_CHECK(db, "input-lost", "the filter did not see the end of its input"); sscanf(db, "%llu %llx", &dn, &dgst);
	VH_CHECK(dn == n && dgst == digest_of(in, n), "input-wrong", "the filter read %llu bytes, should be %zu%s", dn, n, dn == n ? " (contents differ)" : "");
	if (opid) { int s; LIB(pr_close_nowait(ofd)); LIB(s = pr_close(ofd2)); VH_CHECK(s == 3, "other-process", "the other process ended with %d", s); }
	fd_list(&b); d = fd_diff(&a, &b); VH_CHECK(!d, "descriptors", "after the filter:%s", d);
	VH_CHECK(__real_waitpid(-1, NULL, WNOHANG) < 0, "not-reaped", "a process is left");
	vh_count("filters", 1); vh_count("bytes in", n); vh_count("bytes out", nw);
	if (!n) vh_count("empty inputs", 1);
	if (!nw) vh_count("empty outputs", 1);
	if (n > 65536 || nw > 65536) vh_count("beyond pipe capacity", 1);
	if (kind == 4 && kk > 65536 && n > 65536) vh_count("both beyond pipe capacity, output first", 1);
	if (max == nw) vh_count("tight buffers", 1);
	if (st) vh_count("failing filters", 1);
	if (other) vh_count("another process open", 1);
	hcase = vh_mix(hcase, (uint64_t)kind * 1000003 + n * 31 + nw + (uint64_t)(f_eintr + f_short * 3 + f_again * 7 + f_zero * 11));
	unlink(cp); unlink(dp); unlink(ep); free(eb); free(db); free(in); free(out); free(want); free(cmd); (void)ends;
}
/* what cannot be done: an output that does not fit, a filter that ends or closes its output with input left */
static struct { char *cmd, *in, *out, *done, *hpath; int n, max, direct; } Z;
static void at_end(void) { FILE *f = fopen(Z.hpath, "w"); fputs("ran", f); fclose(f); }
static void refused(void *a)
{
	int fi, fo, got; (void)a;
	signal(SIGPIPE, SIG_IGN); atexit(at_end);
	if (Z.direct) { LIB(pr_open(Z.cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &fi, &fo, NULL)); LIB(got = pr_readwrite(fi, fo, Z.in, Z.n, Z.out, Z.max)); }
	else LIB(got = pr_filter(Z.cmd, Z.in, Z.n, Z.out, Z.max));
	printf("returned %d", got); fflush(stdout); _exit(60);
}
static void refuse(int k)
{
	char ctl[600], *c = ctl, *cp = vh_path("z%d.%llu", k, (unsigned long long)vh_case_index), *h; vh_result r; int way = (int)vh_below(3), kk; size_t nw; uint64_t seed = vh_u64();
	static const int pc[] = { 0, 0, 5, 30 };
	f_eintr = pc[vh_below(4)]; f_short = pc[vh_below(3)]; f_again = pc[vh_below(4)]; f_zero = pc[vh_below(4)]; f_delay = 0; wait_eintr_percent = 0;
	Z.hpath = vh_path("zh%d.%llu", k, (unsigned long long)vh_case_index); Z.direct = vh_chance(40);
	if (vh_chance(30)) c += sprintf(c, "sleep %d\n", (int)vh_below(10000));
	if (way == 0) {          /* more output than fits */
		nw = 1 + (vh_chance(40) ? vh_below(10) : vh_chance(50) ? vh_below(5000) : vh_below(150000)); Z.n = vh_chance(60) ? (int)vh_below(3000) : (int)vh_below(150000); kk = (int)nw;
		Z.max = (int)(vh_chance(50) ? nw - 1 : vh_below(nw));
		c += sprintf(c, "filter 4 %d 70000 %d 0 %llu\nexit 0\n", kk, vh_chance(50) ? 70000 : 60 + (int)nw / 50, (unsigned long long)seed);
	} else {                 /* it does not take all of it: far more than pipes hold */
		Z.n = 300000 + (int)vh_below(900000); Z.max = 2000000;
		if (way == 1) c += sprintf(c, "exit %d\n", vh_chance(50) ? 0 : 5);
		else c += sprintf(c, "close 1\nsleep 20000\nwaiteof\nexit 0\n");
	}
	write_ctl(cp, ctl); if (asprintf(&Z.cmd, "vhprobe %s", cp) < 0) _exit(20);
	Z.in = gen((size_t)Z.n, seed ^ 5); Z.out = malloc(Z.max ? (size_t)Z.max : 1);
	vh_op("%s: %d bytes in, buffer %d", way == 0 ? "more output than fits" : way == 1 ? "the filter ends early" : "the filter closes its output early", Z.n, Z.max);
	vh_child(&r, refused, NULL);
	VH_CHECK(!vh_is_sanitizer(&r), "memory-error", "%s", r.err);
	VH_CHECK(!r.timed_out, "hang", "no end");
	VH_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1 && r.errlen, "cut-off", "%s (%d bytes in, buffer %d): not refused, status 0x%x, \"%s\", \"%s\"", way == 0 ? "more output than fits" : way == 1 ? "the filter ended early" : "the filter closed its output early", Z.n, Z.max, r.status, vh_quote(r.out, r.outlen), vh_quote(r.err, r.errlen));
	h = vh_read_file(Z.hpath, NULL); VH_CHECK(h, "exit-handlers", "exit handlers did not run"); free(h);
	vh_count(way == 0 ? "outputs that do not fit" : way == 1 ? "filters that end early" : "outputs closed early", 1);
	unlink(cp); unlink(Z.hpath); free(Z.cmd); free(Z.in); free(Z.out); vh_result_free(&r);
}
/* a program with many files open: the pipes get numbers beyond 1023 */
static int crowd[2000], ncrowd;
static void crowded(void)
{
	struct rlimit l; int fd; if (getrlimit(RLIMIT_NOFILE, &l) || l.rlim_cur < 1500) return;
	while (ncrowd < 1400 && (fd = open("/dev/null", O_RDONLY | O_CLOEXEC)) >= 0) { crowd[ncrowd++] = fd; if (fd >= 1030) break; }
	vh_op("%d files open", ncrowd); vh_count("cases with more than 1024 files open", 1);
}
void vh_case(uint64_t idx)
{
	int k, n = 1 + (int)vh_below(4); unsigned long e0 = n_eintr, s0 = n_short, a0 = n_again, z0 = n_zero, d0 = n_delay, t0 = n_ticks, w0 = waits_interrupted;
	hcase = 0; if (vh_chance(5)) crowded();
	for (k = 0; k < n; k++) one(k);
	if (vh_chance(25)) refuse(n);
	while (ncrowd) close(crowd[--ncrowd]);
	vh_count("calls interrupted", n_eintr - e0); vh_count("transfers shortened", n_short - s0); vh_count("descriptors not ready", n_again - a0); vh_count("waits without event", n_zero - z0); vh_count("delays", n_delay - d0); vh_count("real signals", n_ticks - t0); vh_count("waits for the end interrupted", waits_interrupted - w0);
	vh_digest(hcase); if (n_eintr + n_short + n_again + n_zero > e0 + s0 + a0 + z0) vh_nontrivial();
	if (idx < 2) vh_sample("%d filters with %lu interrupted, %lu shortened, %lu not-ready calls", n, n_eintr - e0, n_short - s0, n_again - a0);
}
