/* C34: what the operating system refuses.  PART=0 processes and filters, PART=1 logs */
#ifndef PART
#define PART 0
#endif
#if PART == 0
#include "prkit.h"
#include <sys/mman.h>
static const char *const CN[] = { "pipe", "fork", "waitpid", "select", "read", "write", "fcntl" };
static struct { int call, nth, err, once; } F; static struct { int hits, calls[C_N]; } *H;   /* shared with the child */
static int refuse(int c)
{
	if (c < C_N) H->calls[c]++;
	if (F.call != c) return 0;
	if (F.once ? F.nth-- != 0 : F.nth-- > 0) return 0;
	H->hits++; errno = F.err; return 1;
}
extern int __real_pipe(int *), __real_pipe2(int *, int), __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *), __real_poll(struct pollfd *, nfds_t, int), __real_fcntl(int, int, ...);
extern ssize_t __real_read(int, void *, size_t), __real_write(int, const void *, size_t);
int __wrap_pipe(int *p) { return in_lib && refuse(C_PIPE) ? -1 : __real_pipe(p); }
int __wrap_pipe2(int *p, int f) { return in_lib && refuse(C_PIPE) ? -1 : __real_pipe2(p, f); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return in_lib && refuse(C_SELECT) ? -1 : __real_select(n, r, w, e, t); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { return in_lib && refuse(C_SELECT) ? -1 : __real_poll(p, n, t); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return in_lib && is_transfer(fd) && refuse(C_READ) ? -1 : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return in_lib && fd != 99 && is_transfer(fd) && refuse(C_WRITE) ? -1 : __real_write(fd, b, n); }
int __wrap_fcntl(int fd, int c, ...) { va_list ap; void *a; va_start(ap, c); a = va_arg(ap, void *); va_end(ap); return in_lib && c == F_GETFL && refuse(C_FCNTL) ? -1 : __real_fcntl(fd, c, a); }
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; pr_setup(); on_call = refuse; H = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static int serial;
static char *probe(const char *fmt, ...) { char t[2000], *p = vh_path("c%d.%llu", serial++, (unsigned long long)vh_case_index), *cmd; va_list ap; va_start(ap, fmt); vsnprintf(t, sizeof t, fmt, ap); va_end(ap); write_ctl(p, t); if (asprintf(&cmd, "vhprobe %s", p) < 0) _exit(20); return cmd; }
enum { OPEN, OPEN_LIMIT, SPAWN, FILTER, CLOSE, GONE, NKINDS };
static const char *const KN[] = { "pr_open", "pr_open with few descriptors left", "pr_spawn", "pr_filter", "waiting for a process", "a process collected by somebody else" };
static struct { int kind, flags, free, status, debug, stream, n, earlier, way; char *cmd, *ecmd, *marker, *log, *rep, *in; } X;
static int efd_in = -1, efd_out = -1, done_ok;
static void put_marker(const char *t) { FILE *f = fopen(X.marker, "a"); fputs(t, f); fclose(f); }
/* the library has to be usable when exit handlers run */
static void handler(void)
{
	int s; char b[16]; ssize_t n; struct rlimit l;
	getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = l.rlim_max < 2048 ? l.rlim_max : 2048; setrlimit(RLIMIT_NOFILE, &l);
	F.call = -1; put_marker("handler\n");
	if (efd_in >= 0) {
		if (__real_write(efd_in, "hello", 5) != 5) put_marker("bad: the earlier process does not take input\n");
		LIB(pr_close_nowait(efd_in)); n = __real_read(efd_out, b, sizeof b);
		if (n != 5 || memcmp(b, "hello", 5)) put_marker("bad: the earlier process does not answer\n");
		LIB(s = pr_close(efd_out)); put_marker(s == 9 ? "earlier ok\n" : "bad: the earlier process ended otherwise\n");
	}
	if (X.stream) log_stream(NULL, NULL);
}
static void fin(const char *fmt, ...) { va_list ap; F.call = -1; done_ok = 1; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); fflush(stdout); exit(0); }
static void limit(int left)   /* everything below the limit is in use, but for `left` descriptors */
{
	struct rlimit l; int fd, n = 0; getrlimit(RLIMIT_NOFILE, &l);
	for (fd = 0; fd < 4096; fd++) if (__real_fcntl(fd, F_GETFD) >= 0) n = fd + 1;
	for (fd = 3; fd < n; fd++) if (__real_fcntl(fd, F_GETFD) < 0 && open("/dev/null", O_RDONLY | O_CLOEXEC) < 0) _exit(21);
	l.rlim_cur = (rlim_t)(n + left); setrlimit(RLIMIT_NOFILE, &l);
}
static void child(void *a)
{
	int in = -1, out = -1, err = -1, s, pid, i; char *got; (void)a;
	maa_init("prog"); atexit(handler);
	if (X.debug) dbg_set(".pr");
	if (X.stream) log_stream("id", fopen(X.log, "we"));
	i = F.call; F.call = -1;
	if (X.earlier) LIB(pr_open(X.ecmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &efd_in, &efd_out, NULL));
	F.call = i; memset(H, 0, sizeof *H);
	switch (X.kind) {
	case OPEN: case OPEN_LIMIT:
		if (X.kind == OPEN_LIMIT) { limit(X.free); F.call = -1; }
		{ static int z; LIB(pid = pr_open(X.cmd, X.flags, X.flags & PR_USE_STDIN ? &z : &in, X.flags & PR_USE_STDOUT ? &z : &out, X.flags & PR_USE_STDERR ? &z : &err)); }
		F.call = -1;
		{ struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = l.rlim_max < 2048 ? l.rlim_max : 2048; setrlimit(RLIMIT_NOFILE, &l); }
		if (pid <= 0) { put_marker("bad: no process\n"); }
		if (in >= 0) LIB(pr_close_nowait(in));
		if (out >= 0) { char b[64]; while (__real_read(out, b, sizeof b) > 0) ; LIB(pr_close_nowait(out)); }
		if (err >= 0) { char b[64]; while (__real_read(err, b, sizeof b) > 0) ; LIB(pr_close_nowait(err)); }
		LIB(s = pr_wait(pid)); fin("status %d", s);
	case SPAWN: LIB(s = pr_spawn(X.cmd)); fin("status %d", s);
	case FILTER:
		got = malloc((size_t)X.n + 1);
		if (X.way) { i = F.call; if (i <= C_FORK) F.call = -1; LIB(pr_open(X.cmd, PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &out, NULL)); F.call = i; LIB(i = pr_readwrite(in, out, X.in, X.n, got, X.n + 1)); }
		else LIB(i = pr_filter(X.cmd, X.in, X.n, got, X.n + 1));
		fin("%s", i == X.n && !memcmp(got, X.in, (size_t)X.n) ? "filtered" : "bad: the output differs");
	case CLOSE:
		i = F.call; F.call = -1; LIB(pid = pr_open(X.cmd, PR_CREATE_STDOUT, NULL, &out, NULL)); F.call = i;
		if (X.way) LIB(s = pr_close(out)); else { LIB(pr_close_nowait(out)); LIB(s = pr_wait(pid)); }
		fin("status %d", s);
	case GONE: /* the status goes to somebody else: the program ignores its children, or collects them itself */
		if (X.way == 0) signal(SIGCHLD, SIG_IGN);
		if (X.way == 1) { LIB(s = (signal(SIGCHLD, SIG_IGN), pr_spawn(X.cmd))); fin("status %d", s); }
		LIB(pid = pr_open(X.cmd, PR_CREATE_STDOUT, NULL, &out, NULL));
		if (X.way == 2) { while (__real_waitpid(pid, &s, 0) < 0 && errno == EINTR) ; }
		LIB(s = pr_close(out)); fin("status %d", s);
	}
}
void vh_case(uint64_t idx)
{
	static const int perr[] = { EMFILE, ENFILE }, ferr[] = { EAGAIN, ENOMEM, ENOSYS }, werr[] = { EINVAL, EFAULT, EPERM, EIO }, serr[] = { EBADF, EINVAL, ENOMEM }, rerr[] = { EIO, EBADF, EINVAL }, xerr[] = { EIO, EPIPE, EBADF, ENOSPC }, gerr[] = { EBADF, EACCES };
	vh_result r; char *m, *lg, *e; int n, creates, got = -999, hit, exited; size_t mn;
	memset(&X, 0, sizeof X); serial = 0; wait_eintr_percent = vh_chance(30) ? 30 : 0;
	X.kind = (int)vh_below(NKINDS); X.status = (int)vh_below(256); X.stream = vh_chance(40); X.earlier = X.kind != GONE && vh_chance(60); X.debug = vh_chance(10); X.way = (int)vh_below(3);
	X.marker = vh_path("m%llu", (unsigned long long)idx); X.log = vh_path("l%llu", (unsigned long long)idx); X.rep = vh_path("r%llu", (unsigned long long)idx);
	X.cmd = probe("%s%s\nexit %d\n", X.kind == OPEN || X.kind == OPEN_LIMIT ? "report " : "sleep ", X.kind == OPEN || X.kind == OPEN_LIMIT ? X.rep : vh_chance(50) ? "2000" : "0", X.status);
	X.ecmd = probe("cat\nexit 9\n");
	F.call = -1; F.once = vh_chance(30); F.nth = 0;
	creates = 0;
	if (X.kind == OPEN || X.kind == OPEN_LIMIT) {
		int q; for (q = 0; q < 3; q++) { static const int c[] = { PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDERR }, u[] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR }; int w = (int)vh_below(3); if (w == 0) { X.flags |= c[q]; creates++; } else if (w == 1) X.flags |= u[q]; }
		if (!(X.flags & (PR_CREATE_STDERR | PR_USE_STDERR)) && vh_chance(50)) X.flags |= PR_STDERR_TO_STDOUT;
	}
	switch (X.kind) {
	case OPEN: if (creates && vh_chance(60)) { F.call = C_PIPE; F.nth = (int)vh_below((uint64_t)creates); F.err = perr[vh_below(2)]; } else { F.call = C_FORK; F.err = ferr[vh_below(3)]; } break;
	case OPEN_LIMIT: X.free = (int)vh_below(8); break;
	case SPAWN: if (vh_chance(50)) { F.call = C_FORK; F.err = ferr[vh_below(3)]; } else { F.call = C_WAIT; F.err = werr[vh_below(4)]; } break;
	case FILTER:
		X.n = vh_chance(30) ? (int)vh_below(20) : (int)vh_below(200000); X.in = gen((size_t)X.n, idx); free(X.cmd); X.cmd = probe("filter %d 1 5000 5000 0 1\nexit 0\n", vh_chance(50) ? 0 : 3);
		F.call = (int)vh_below(C_N); F.nth = F.call == C_PIPE ? (int)vh_below(2) : F.call == C_FCNTL ? (int)vh_below(2) : F.call == C_FORK || F.call == C_WAIT ? 0 : (int)vh_below(vh_chance(50) ? 3 : 40);
		F.err = F.call == C_PIPE ? perr[vh_below(2)] : F.call == C_FORK ? ferr[vh_below(3)] : F.call == C_WAIT ? werr[vh_below(4)] : F.call == C_SELECT ? serr[vh_below(3)] : F.call == C_READ ? rerr[vh_below(3)] : F.call == C_WRITE ? xerr[vh_below(4)] : gerr[vh_below(2)];
		break;
	case CLOSE: F.call = C_WAIT; F.err = werr[vh_below(4)]; break;
	default: break;
	}
	vh_op("%s flags 0x%x; refused: %s number %d%s with \"%s\"; %d descriptors left; status %d, way %d%s%s", KN[X.kind], X.flags, F.call < 0 ? "nothing" : CN[F.call], F.nth, F.once ? " once" : "", F.call < 0 ? "" : strerror(F.err), X.kind == OPEN_LIMIT ? X.free : -1, X.status, X.way, X.earlier ? ", an earlier process is open" : "", X.stream ? ", log open" : "");
	memset(H, 0, sizeof *H);
	vh_child_exit(&r, child, NULL);
	hit = H->hits;
	VH_CHECK(!vh_is_sanitizer(&r), "memory-error", "%s", r.err);
	VH_CHECK(!r.timed_out, "hang", "no end");
	VH_CHECK(WIFEXITED(r.status), "crash", "ended with 0x%x: \"%s\"", r.status, vh_quote(r.err, r.errlen));
	exited = WEXITSTATUS(r.status);
	m = vh_read_file(X.marker, &mn);
	VH_CHECK(m && !strncmp(m, "handler\n", 8), "exit-handlers", "exit handlers did not run: status 0x%x \"%s\"", r.status, vh_quote(r.err, r.errlen));
	VH_CHECK(!strstr(m, "bad:"), "after-refusal", "%s", strstr(m, "bad:"));
	if (X.earlier) VH_CHECK(strstr(m, "earlier ok"), "after-refusal", "the earlier process could not be closed in the exit handler: \"%s\"", m);
	e = r.outlen >= 7 ? memmem(r.out, r.outlen, "status ", 7) : NULL; if (e) got = atoi(e + 7);
	if (r.outlen >= 4 && memmem(r.out, r.outlen, "bad:", 4)) vh_fail("wrong-result", "%s", vh_quote(r.out, r.outlen));
	VH_CHECK(exited == 0 || exited == 1, "exit-status", "ended with %d", exited);
	if (exited == 1) {       /* reported */
		const char *se = X.kind == OPEN_LIMIT ? strerror(EMFILE) : strerror(F.err);
		VH_CHECK(hit || X.kind == OPEN_LIMIT, "refused-needlessly", "nothing was refused, the library gave up: \"%s\"", vh_quote(r.err, r.errlen));
		VH_CHECK(memmem(r.err, r.errlen, se, strlen(se)) && !strncmp(r.err, "prog", 4), "not-named", "the system error \"%s\" is not named: \"%s\"", se, vh_quote(r.err, r.errlen));
		if (X.stream) { lg = vh_read_file(X.log, NULL); VH_CHECK(lg && strstr(lg, se), "not-logged", "the system error \"%s\" is not in the log: \"%s\"", se, lg ? lg : "(none)"); free(lg); }
		VH_CHECK(X.kind != GONE, "gone-fatal", "a process collected by somebody else ends the program: \"%s\"", vh_quote(r.err, r.errlen));
		vh_count("refusals reported", 1);
	} else {
		int want = X.status, sure = 1;
		if (X.kind == OPEN_LIMIT) {
			/* with room for the pipes everything is as requested, or the command was not run */
			preport rp; int q, ok = read_report(X.rep, &rp);
			if (got == 127 && !ok) { vh_count("commands not run for want of a descriptor", 1); want = 127; }
			else {
				VH_CHECK(ok, "no-report", "the command did not run, its status is %d", got);
				for (q = 0; q < 3; q++) { static const int u[] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR }; int j, nul = 0; struct stat st; stat("/dev/null", &st); if (!(X.flags & u[q])) continue; for (j = 0; j < rp.nfd; j++) if (rp.f[j].fd == q) nul = rp.f[j].rdev == (unsigned long long)st.st_rdev; VH_CHECK(nul, "other-stream", "stream %d of the command is not the null device", q); }
				vh_count("opened with few descriptors left", 1);
			}
			VH_CHECK(X.free >= 2 * creates, "impossible", "%d pipes with %d descriptors", creates, X.free);
			if (ok) drop_report(&rp);
		}
		if (X.kind == GONE) want = 0;
		if (X.kind == GONE && X.way == 0) vh_count("children ignored", 1);
		if (hit && F.call == C_WAIT) { sure = 0; if (X.kind != FILTER) VH_CHECK(got == -1 || (F.once && got == want), "status-invented", "waiting was refused (%s), the status is %d", strerror(F.err), got); else VH_CHECK(r.errlen, "no-warning", "waiting was refused (%s), nothing is said", strerror(F.err)); vh_count("waits refused", 1); }
		else if (hit) VH_CHECK(F.once, "taken-for-success", "%s was refused every time and yet the operation succeeded", CN[F.call]);
		if (X.kind == FILTER) VH_CHECK(memmem(r.out, r.outlen, "filtered", 8), "no-result", "\"%s\"", vh_quote(r.out, r.outlen));
		else if (sure) VH_CHECK(got == want, "status", "the status is %d, should be %d", got, want);
		if (!hit && F.call < 0) vh_count("operations with nothing refused", 1);
	}
	if (hit) { vh_count("calls refused", 1); vh_nontrivial(); switch (F.call) { case C_PIPE: vh_count("pipes refused", 1); break; case C_FORK: vh_count("processes refused", 1); break; case C_SELECT: vh_count("selects refused", 1); break; case C_READ: vh_count("reads refused", 1); break; case C_WRITE: vh_count("writes refused", 1); break; default: break; } }
	if (X.kind == OPEN_LIMIT && exited == 1) { vh_nontrivial(); vh_count("out of descriptors", 1); }
	n = (int)idx; (void)n; vh_digest((uint64_t)X.kind * 64 + (uint64_t)(F.call + 1)); vh_digest((uint64_t)X.flags); vh_digest((uint64_t)(exited * 1000 + F.err)); vh_digest((uint64_t)X.n); vh_digest((uint64_t)X.status);
	unlink(X.marker); unlink(X.log); unlink(X.rep); free(X.cmd); free(X.ecmd); free(X.in); free(m); vh_result_free(&r);
	if (idx < 2) vh_sample("%s, %s refused, ends with %d", KN[X.kind], F.call < 0 ? "nothing" : CN[F.call], exited);
}
#else
/* ---- logs ---- */
#include "logw.h"
#include <sys/socket.h>
#include <sys/un.h>
enum { BADOPEN, BADROTATE, BADWRITE, BADSTREAM, NKINDS };
static const char *const KN[] = { "a log file that cannot be opened", "a rotation to a file that cannot be opened", "a log file that takes nothing for a while", "a stream that takes nothing" };
static struct { int kind, bad, stream, sys, nrec, from, to, mkd; char *path, *spath, *ypath, *hpath, *root; int err, after; } X;
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; log_host(); if (chdir(vh_scratch)) vh_inconclusive("chdir"); }
static struct rlimit nofile; static int low_fd, unprivileged;
/* from now on there is no descriptor for a log file, or no permission */
static void deny(void)
{
	if (X.bad == 6) { struct rlimit l = nofile; l.rlim_cur = (rlim_t)low_fd; if (setrlimit(RLIMIT_NOFILE, &l)) _exit(62); }
	if (X.bad == 7) { if (seteuid(65534)) _exit(63); unprivileged = 1; }
}
static void handler(void) { FILE *f; if (X.bad == 6) setrlimit(RLIMIT_NOFILE, &nofile); if (unprivileged && seteuid(0)) _exit(64); f = fopen(X.hpath, "w"); log_info("from the handler"); log_close(); log_info("nobody"); fputs("ran", f); fclose(f); }
/* a path that cannot be opened for appending, with the error that results */
static void make_socket(const char *p)
{
	struct sockaddr_un u; int s; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; if (strlen(p) >= sizeof u.sun_path) _exit(20); strcpy(u.sun_path, p);
	s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); if (s < 0 || bind(s, (struct sockaddr *)&u, sizeof u)) _exit(20); close(s);
}
static char *bad_path(const char *root)
{
	char p[9000], q[9000]; FILE *f; int i;
	switch (X.bad = (int)vh_below(9)) {
	case 0: snprintf(p, sizeof p, "%s/file", root); f = fopen(p, "w"); fclose(f); strcat(p, "/x.log"); X.err = ENOTDIR; break;
	case 1: snprintf(p, sizeof p, "%s/dir", root); mkdir(p, 0755); X.err = EISDIR; break;
	case 2: snprintf(p, sizeof p, "%s/", root); i = (int)strlen(p); memset(p + i, 'n', 300); p[i + 300] = 0; X.err = ENAMETOOLONG; break;
	case 3: snprintf(p, sizeof p, "%s/loop", root); snprintf(q, sizeof q, "%s/loop2", root); (void)!symlink(q, p); (void)!symlink(p, q); X.err = ELOOP; break;
	case 4: snprintf(p, sizeof p, "%s/d/e/", root); X.err = EISDIR; break;
	case 5: snprintf(p, sizeof p, "%s/sock", root); make_socket(p); X.err = ENXIO; break;
	case 6: snprintf(p, sizeof p, "%s/good", root); X.err = EMFILE; break;
	case 7: snprintf(p, sizeof p, "%s/closed", root); mkdir(p, 0700); strcat(p, "/x.log"); X.err = EACCES; break;
	default: snprintf(p, sizeof p, "%s/dangling", root); snprintf(q, sizeof q, "%s/no/such/file", root); if (symlink(q, p)) _exit(20); X.err = ENOENT; break;
	}
	return strdup(p);
}
static void rec(int i) { if (i & 1) log_error("routine", "#%d# text", i); else log_info("#%d# text", i); }
static void child(void *a)
{
	int i; struct rlimit l, off; (void)a;
	maa_init("prog"); atexit(handler); signal(SIGXFSZ, SIG_IGN); vclock_on = 1; vclock_s = 1000000000; getrlimit(RLIMIT_FSIZE, &off); l = off;
	if (X.sys) { sysl_fd = open(X.ypath, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); log_syslog("id"); }
	if (X.stream) log_stream("id", fopen(X.kind == BADSTREAM ? "/dev/full" : X.spath, "w"));
	getrlimit(RLIMIT_NOFILE, &nofile); low_fd = fcntl(0, F_DUPFD, 0); close(low_fd);
	if (X.kind == BADOPEN) { rec(0); deny(); log_file("id", X.path); _exit(60); }
	log_file("id", X.path);
	for (i = 0; i < X.nrec; i++) {
		if (X.kind == BADROTATE && i == X.from) { vclock_s += 1; deny(); }   /* the name now is the bad one */
		if (X.kind == BADWRITE) { int on = i >= X.from && i < X.to; struct stat st; if (stat(X.path, &st)) _exit(61); l.rlim_cur = on ? (rlim_t)st.st_size : off.rlim_cur; setrlimit(RLIMIT_FSIZE, &l); }
		rec(i);
		if (X.kind == BADROTATE && i == X.from) _exit(60);
	}
	l.rlim_cur = off.rlim_cur; setrlimit(RLIMIT_FSIZE, &l);
	vclock_on = 0;
	exit(7);
}
static void expect(const char *what, const char *path, int from, int to, int skipfrom, int skipto, const char *last)
{
	size_t n; char *c = vh_read_file(path, &n), *p = c, *nl, want[64]; int i;
	VH_CHECK(c, "log-missing", "%s: no contents", what);
	if (X.kind == BADWRITE && !strcmp(what, "file")) { VH_CHECK(n >= 84000 && !strncmp(c + 83979, "00000000000000003999\n", 21), "old-contents-lost", "the earlier contents are gone"); p = c + 84000; }
	for (i = from; i < to; i++) {
		if (i >= skipfrom && i < skipto) continue;
		nl = strchr(p, '\n'); VH_CHECK(nl, "record-missing", "%s: record %d is missing", what, i); *nl = 0;
		snprintf(want, sizeof want, "#%d# text", i);
		VH_CHECK(strlen(p) >= strlen(want) && !strcmp(p + strlen(p) - strlen(want), want), "record-wrong", "%s: record %d is \"%s\"", what, i, vh_quote(p, strlen(p))); p = nl + 1; vh_count("records compared", 1);
	}
	if (last) VH_CHECK(strstr(p, last), "not-logged", "%s: the report of the error (\"%s\") is missing: \"%s\"", what, last, vh_quote(p, strlen(p)));
	if (!last) { nl = strchr(p, '\n'); VH_CHECK(!*p || strstr(p, "from the handler"), "record-extra", "%s: extra text \"%s\"", what, vh_quote(p, strlen(p))); }
	free(c);
}
void vh_case(uint64_t idx)
{
	vh_result r; char *h, t[600]; int fatal; const char *se;
	memset(&X, 0, sizeof X);
	X.kind = (int)vh_below(NKINDS); X.stream = vh_chance(60) || X.kind == BADSTREAM; X.sys = vh_chance(60); X.nrec = 2 + (int)vh_below(40); X.from = (int)vh_below((uint64_t)X.nrec); X.to = X.from + 1 + (int)vh_below((uint64_t)(X.nrec - X.from));
	X.root = strdup(vh_path("r%llu", (unsigned long long)idx)); mkdir(X.root, 0755);
	X.spath = vh_path("s%llu", (unsigned long long)idx); X.ypath = vh_path("y%llu", (unsigned long long)idx); X.hpath = vh_path("h%llu", (unsigned long long)idx);
	if (X.kind == BADOPEN) X.path = bad_path(X.root);
	else if (X.kind == BADROTATE) { char *b = bad_path(X.root), *q; /* good now, bad a second later: by %S = 40 and 41 */ if (X.from == 0) X.from = 1;
		if (asprintf(&X.path, "%s/n%%S", X.root) < 0) _exit(20);
		snprintf(t, sizeof t, "%s/n41", X.root);
		if (X.bad == 0) { snprintf(t, sizeof t, "%s/n40", X.root); mkdir(t, 0755); snprintf(t, sizeof t, "%s/n41", X.root); { FILE *f = fopen(t, "w"); fclose(f); } q = X.path; if (asprintf(&X.path, "%s/log", q) < 0) _exit(20); free(q); }
		else if (X.bad == 3) { if (symlink(t, t)) _exit(20); }
		else if (X.bad == 5) make_socket(t);
		else if (X.bad == 6) { if (vh_chance(50)) { FILE *f = fopen(t, "w"); fclose(f); } }
		else if (X.bad == 7) { FILE *f = fopen(t, "w"); fclose(f); chmod(t, 0600); chmod(X.root, 0777); }
		else if (X.bad == 8) { char u[700]; snprintf(u, sizeof u, "%s/no/such/file", X.root); if (symlink(u, t)) _exit(20); }
		else { mkdir(t, 0755); X.err = EISDIR; }
		free(b); }
	else { if (asprintf(&X.path, "%s/x.log", X.root) < 0) _exit(20); }
	if (X.kind == BADWRITE) { FILE *f = fopen(X.path, "w"); int i; for (i = 0; i < 4000; i++) fprintf(f, "%020d\n", i); fclose(f); }   /* longer than the other logs, which are not limited then */
	if (X.bad == 7 && geteuid()) vh_inconclusive("not root");
	fatal = X.kind <= BADROTATE; se = strerror(X.err); if (fatal) vh_count(X.bad == 6 ? "logs without a descriptor left" : X.bad == 7 ? "logs without permission" : "logs with unusable names", 1);
	vh_op("%s (%s), %d records, from %d to %d;%s%s", KN[X.kind], fatal ? se : "", X.nrec, X.from, X.to, X.stream ? " stream" : "", X.sys ? " syslog" : "");
	vh_child(&r, child, NULL);
	VH_CHECK(!vh_is_sanitizer(&r), "memory-error", "%s", r.err);
	VH_CHECK(!r.timed_out, "hang", "no end");
	VH_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == (fatal ? 1 : 7), fatal ? "not-reported" : "log-fault-fatal", "%s: ended with 0x%x \"%s\"", KN[X.kind], r.status, vh_quote(r.err, r.errlen));
	h = vh_read_file(X.hpath, NULL); VH_CHECK(h, "exit-handlers", "exit handlers did not run or did not end"); free(h);
	if (fatal) {
		VH_CHECK(memmem(r.err, r.errlen, se, strlen(se)) && !strncmp(r.err, "prog", 4), "not-named", "the system error \"%s\" is not named: \"%s\"", se, vh_quote(r.err, r.errlen));
		if (X.kind == BADROTATE) { char *p; if (asprintf(&p, "%s/n40%s", X.root, X.bad == 0 ? "/log" : "") < 0) _exit(20); expect("the file before the rotation", p, 0, X.from, 0, 0, NULL); free(p); }
		if (X.stream) expect("stream", X.spath, 0, X.kind == BADOPEN ? 1 : X.from, 0, 0, se);
		if (X.sys) expect("system log", X.ypath, 0, X.kind == BADOPEN ? 1 : X.from, 0, 0, se);
		vh_count(X.kind == BADOPEN ? "log files that cannot be opened" : "rotations that fail", 1);
	} else {
		VH_CHECK(!r.errlen || X.kind == BADSTREAM, "said-something", "\"%s\"", vh_quote(r.err, r.errlen));
		expect("file", X.path, 0, X.nrec, X.kind == BADWRITE ? X.from : 0, X.kind == BADWRITE ? X.to : 0, NULL);
		if (X.kind == BADWRITE && X.stream) expect("stream", X.spath, 0, X.nrec, 0, 0, NULL);
		if (X.sys) expect("system log", X.ypath, 0, X.nrec, 0, 0, NULL);
		if (X.kind == BADWRITE) vh_count("records that could not be written", (uint64_t)(X.to - X.from)); else vh_count("streams that take nothing", 1);
	}
	vh_digest((uint64_t)X.kind * 100 + (uint64_t)X.bad); vh_digest((uint64_t)X.nrec * 10000 + (uint64_t)X.from * 100 + (uint64_t)X.to); vh_digest((uint64_t)(X.stream * 2 + X.sys)); vh_nontrivial();
	snprintf(t, sizeof t, "%s", X.root); { char *c; if (asprintf(&c, "rm -rf '%s'", X.root) > 0) { (void)!system(c); free(c); } }
	unlink(X.spath); unlink(X.ypath); unlink(X.hpath); free(X.root); free(X.path); vh_result_free(&r);
	if (idx < 2) vh_sample("%s", KN[X.kind]);
}
#endif
