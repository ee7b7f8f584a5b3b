/* C22: plumbing of started processes */
#include "prkit.h"
enum { INHERIT, NUL, GIVEN, CREATE, JOIN };
typedef struct proc {
	int id, live, group, pid, flags, m[3], fd[3];       /* fd: our end, or -1 */
	inode ino[3];                                        /* what it has to be connected to */
	int drain[3]; char *gfile[3];                        /* given: our other end of it, or the file */
	char *inb; size_t nin, at; size_t nout, nerr; uint64_t so, se;
	char *got[3]; size_t ngot[3], cgot[3]; int eof[3];
	char **word; int nw; char *rep, *inrep, *ctl; char cb[40];
	struct proc *from, *to;                              /* pipelines */
} proc;
#define NP 40
static proc *P[NP]; static int np; static int cases_started;
static inode known[1000]; static int nknown;             /* pipes made by the library */
static int cb_ran_here; static char cb_token[40];
static void callback(void) { cb_ran_here++; setenv("VH_CB", cb_token, 1); }
static int same(inode a, inode b) { return a.dev == b.dev && a.ino == b.ino; }
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; pr_setup(); }
static void regroup(int from, int to) { int i; for (i = 0; i < np; i++) if (P[i]->group == from) P[i]->group = to; }
static const char *const MN[] = { "inherited", "null", "given", "pipe", "joined" };
static proc *start(int maxproc)
{
	proc *p = calloc(1, sizeof *p); char *ctl, *cmd, *c, *s; int i, argfd[3] = { -7, -7, -7 }; fdset_t before, after; size_t l; preport r; int usenull[3] = {0, 0, 0}; inode own[3]; int k, words, given_same = 0; const char *d; int r0;
	(void)maxproc;
	p->id = cases_started++; p->group = p->id; p->live = 1;
	for (i = 0; i < 3; i++) { p->fd[i] = p->drain[i] = -1; own[i] = fd_inode(i); }
	for (i = 0; i < 3; i++) { int x = (int)vh_below(100); p->m[i] = x < 15 ? INHERIT : x < 25 ? NUL : x < 50 ? GIVEN : CREATE; }
	if (vh_chance(20)) p->m[2] = JOIN;
	if (p->m[1] == GIVEN && p->m[2] == GIVEN && vh_chance(40)) given_same = 1;
	/* where given descriptors come from */
	for (i = 0; i < 3; i++) {
		if (p->m[i] == NUL) { usenull[i] = (int)vh_below(2); argfd[i] = 0; p->flags |= i == 0 ? PR_USE_STDIN : i == 1 ? PR_USE_STDOUT : PR_USE_STDERR; }
		if (p->m[i] == CREATE) p->flags |= i == 0 ? PR_CREATE_STDIN : i == 1 ? PR_CREATE_STDOUT : PR_CREATE_STDERR;
		if (p->m[i] == JOIN) p->flags |= PR_STDERR_TO_STDOUT;
		if (p->m[i] != GIVEN) continue;
		p->flags |= i == 0 ? PR_USE_STDIN : i == 1 ? PR_USE_STDOUT : PR_USE_STDERR;
		if (i == 2 && given_same) { argfd[2] = argfd[1]; p->ino[2] = p->ino[1]; continue; }
		k = (int)vh_below(4);
		if (k == 0 && !given_same && i < 2) {   /* an earlier process's pipe */
			int j, tries; proc *q = NULL;
			for (tries = 0; tries < 6 && np; tries++) { j = (int)vh_below(np); if (P[j]->live && P[j]->group != p->group && (i == 0 ? P[j]->fd[1] >= 0 && !P[j]->ngot[1] && P[j]->m[1] == CREATE : P[j]->fd[0] >= 0 && !P[j]->nin && P[j]->m[0] == CREATE)) { q = P[j]; break; } }
			if (q && i == 0) { argfd[0] = q->fd[1]; p->ino[0] = fd_inode(q->fd[1]); q->fd[1] = -1; q->eof[1] = 1; p->from = q; q->to = p; regroup(q->group, p->group); q->group = p->group; vh_count("output taken over by another process", 1); continue; }
			if (q && i == 1) { argfd[1] = q->fd[0]; p->ino[1] = fd_inode(q->fd[0]); q->fd[0] = -1; q->from = p; p->to = q; regroup(q->group, p->group); q->group = p->group; vh_count("input taken over by another process", 1); continue; }
		}
		if (k <= 1) {     /* a file */
			p->gfile[i] = strdup(vh_path("g%d.%d.%llu", p->id, i, (unsigned long long)vh_case_index));
			if (i == 0) { size_t n = vh_below(20000); char *b = gen(n, vh_u64()); FILE *f = fopen(p->gfile[0], "we"); fwrite(b, 1, n, f); fclose(f); p->inb = b; p->nin = p->at = n; argfd[0] = open(p->gfile[0], O_RDONLY | O_CLOEXEC); }
			else argfd[i] = open(p->gfile[i], O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
		} else if (k == 2) { int v[2]; if (pipe2(v, O_CLOEXEC) < 0) { perror("pipe"); _exit(20); } argfd[i] = i == 0 ? v[0] : v[1]; p->drain[i] = i == 0 ? v[1] : v[0]; }
		else { int v[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, v) < 0) { perror("socketpair"); _exit(20); } argfd[i] = v[0]; p->drain[i] = v[1]; }
		p->ino[i] = fd_inode(argfd[i]);
	}
	/* what it does */
	p->nout = p->m[1] == INHERIT ? 0 : vh_chance(10) ? vh_below(300000) : vh_below(3000); p->so = vh_u64();
	p->nerr = p->m[2] == INHERIT || (p->m[2] == JOIN && p->m[1] == INHERIT) ? 0 : vh_chance(10) ? vh_below(100000) : vh_below(2000); p->se = vh_u64();
	if (p->m[0] == CREATE || (p->m[0] == GIVEN && p->drain[0] >= 0)) { p->nin = vh_chance(10) ? vh_below(200000) : vh_chance(20) ? 0 : vh_below(3000); p->inb = gen(p->nin, vh_u64()); }
	ctl = malloc(70000); c = ctl;
	p->ctl = strdup(vh_path("c%d.%llu", p->id, (unsigned long long)vh_case_index)); p->rep = strdup(vh_path("r%d.%llu", p->id, (unsigned long long)vh_case_index)); p->inrep = strdup(vh_path("i%d.%llu", p->id, (unsigned long long)vh_case_index));
	c += sprintf(c, "report %s\n", p->rep);
	k = (int)vh_below(3);
	if (k == 0) c += sprintf(c, "in %s 0 0\n", p->inrep);
	if (p->m[1] != INHERIT) c += sprintf(c, "gen 1 %zu %llu\n", p->nout, (unsigned long long)p->so);
	if (p->nerr) c += sprintf(c, "gen 2 %zu %llu\n", p->nerr, (unsigned long long)p->se);
	if (k) c += sprintf(c, "in %s 0 0\n", p->inrep);
	c += sprintf(c, "exit 0\n");
	write_ctl(p->ctl, ctl); free(ctl);
	/* its words */
	words = vh_chance(6) ? (int)(vh_chance(30) ? vh_below(5000) : vh_below(400)) : (int)vh_below(8); p->word = malloc(sizeof *p->word * (size_t)(words + 2)); vh_max("most words of a command", (uint64_t)words + 2);
	p->word[p->nw++] = strdup(vh_chance(30) ? "vhprobe" : vh_chance(50) ? home : helper); p->word[p->nw++] = strdup(p->ctl);
	for (i = words; i; i--) { size_t n = words > 50 ? vh_below(12) : vh_chance(5) ? 200 + vh_below(2000) : vh_below(12), j; char *w = malloc(n + 1); for (j = 0; j < n; j++) w[j] = vh_chance(15) ? " \t\r\v\n\"'\\*$;|&><#~`!%"[vh_below(20)] : vh_chance(3) ? (char)(128 + vh_below(128)) : (char)(33 + vh_below(94)); w[n] = 0; p->word[p->nw++] = w; }
	for (l = 100, i = 0; i < p->nw; i++) l += 2 * strlen(p->word[i]) + 20;
	cmd = malloc(l); s = cmd; if (vh_chance(20)) *s++ = ' ';
	for (i = 0; i < p->nw; i++) { if (i) do *s++ = " \t\n\r\v "[vh_below(6)]; while (vh_chance(20)); s += render_word(s, p->word[i]); }
	if (vh_chance(20)) *s++ = ' ';
	*s = 0; c = vh_arg(cmd, (size_t)(s - cmd) + 1); free(cmd);
	snprintf(p->cb, sizeof p->cb, "cb%llx", (unsigned long long)vh_u64()); if (!vh_chance(40)) p->cb[0] = 0;
	vh_op("start %d: stdin %s stdout %s stderr %s%s, %zu in, %zu out, %zu err%s", p->id, MN[p->m[0]], MN[p->m[1]], MN[p->m[2]], given_same ? " (the same descriptor)" : "", p->nin, p->nout, p->nerr, p->cb[0] ? ", callback" : "");
	fd_list(&before);
	{
		int f[3]; int *pp[3];
		for (i = 0; i < 3; i++) { f[i] = argfd[i]; pp[i] = p->m[i] == NUL && usenull[i] ? NULL : p->m[i] == INHERIT || p->m[i] == JOIN ? (vh_chance(50) ? NULL : &f[i]) : &f[i]; }
		strcpy(cb_token, p->cb); r0 = cb_ran_here;
		if (p->cb[0]) LIB(p->pid = pr_open2(c, callback, p->flags, pp[0], pp[1], pp[2]));
		else if (vh_chance(50)) LIB(p->pid = pr_open(c, p->flags, pp[0], pp[1], pp[2]));
		else LIB(p->pid = pr_open2(c, NULL, p->flags, pp[0], pp[1], pp[2]));
		VH_CHECK(cb_ran_here == r0 && !getenv("VH_CB"), "callback-in-parent", "the callback ran in the parent");
		for (i = 0; i < 3; i++) if (p->m[i] == CREATE) { p->fd[i] = f[i]; if (f[i] < 0 || f[i] >= FDMAX || before.on[f[i]]) vh_fail("pipe-end", "descriptor %d returned for pipe %d is not a new one", f[i], i); p->ino[i] = fd_inode(f[i]); known[nknown++] = p->ino[i]; before.on[f[i]] = 1; k = fcntl(f[i], F_GETFL) & O_ACCMODE; VH_CHECK(k == (i == 0 ? O_WRONLY : O_RDONLY), "pipe-end", "the returned end of pipe %d has access mode %d", i, k); }
		for (i = 0; i < 3; i++) if (p->m[i] == GIVEN) before.on[argfd[i]] = 0;
	}
	vh_unarg(c);
	VH_CHECK(p->pid > 0, "no-process", "pr_open returned %d", p->pid);
	fd_list(&after); d = fd_diff(&before, &after);
	VH_CHECK(!d, "parent-descriptors", "after starting (stdin %s, stdout %s, stderr %s):%s", MN[p->m[0]], MN[p->m[1]], MN[p->m[2]], d);
	/* what the process says about itself */
	VH_CHECK(wait_file(p->rep, 20000), "command-not-run", "the command did not run (stdin %s, stdout %s, stderr %s)", MN[p->m[0]], MN[p->m[1]], MN[p->m[2]]);
	read_report(p->rep, &r);
	VH_CHECK(r.pid == p->pid && r.ppid == (int)getpid(), "pid", "pr_open returned %d, the process is %d with parent %d", p->pid, r.pid, r.ppid);
	VH_CHECK(r.argc == p->nw, "word-count", "the command got %d words, should be %d", r.argc, p->nw);
	for (i = 0; i < p->nw; i++) VH_CHECK(!strcmp(r.argv[i], p->word[i]), "word-wrong", "word %d is \"%s\", should be \"%s\"", i, vh_quote(r.argv[i], strlen(r.argv[i])), vh_quote(p->word[i], strlen(p->word[i])));
	VH_CHECK(!strcmp(r.env, p->cb[0] ? p->cb : "-"), "callback", "the callback %s", p->cb[0] ? "did not run in the child" : "ran unasked");
	for (i = 0; i < 3; i++) {
		int j; for (j = 0; j < r.nfd && r.f[j].fd != i; j++) ;
		VH_CHECK(j < r.nfd, "stream-closed", "the command has no descriptor %d (%s)", i, MN[p->m[i]]);
		switch (p->m[i]) {
		case INHERIT: VH_CHECK(same(r.f[j].i, own[i]), "stream-wrong", "descriptor %d should be inherited", i); break;
		case NUL: VH_CHECK(r.f[j].rdev == 259, "stream-wrong", "descriptor %d should be the null device (rdev %llu)", i, r.f[j].rdev); VH_CHECK(i == 0 ? r.f[j].acc != O_WRONLY : r.f[j].acc != O_RDONLY, "stream-mode", "descriptor %d has access mode %d", i, r.f[j].acc); break;
		case JOIN: { int o; for (o = 0; o < r.nfd && r.f[o].fd != 1; o++) ; VH_CHECK(o < r.nfd && same(r.f[j].i, r.f[o].i), "stream-wrong", "standard error is not joined to standard output"); break; }
		default: VH_CHECK(same(r.f[j].i, p->ino[i]), "stream-wrong", "descriptor %d is not connected to the %s", i, p->m[i] == CREATE ? "new pipe" : "given descriptor");
			VH_CHECK(i == 0 ? r.f[j].acc != O_WRONLY : r.f[j].acc != O_RDONLY, "stream-mode", "descriptor %d has access mode %d", i, r.f[j].acc);
		}
		vh_count(p->m[i] == INHERIT ? "streams inherited" : p->m[i] == NUL ? "streams from the null device" : p->m[i] == GIVEN ? "streams given" : p->m[i] == CREATE ? "streams by new pipe" : "errors joined to output", 1);
	}
	for (i = 0; i < r.nfd; i++) if (r.f[i].fd > 2) { int j; for (j = 0; j < nknown; j++) VH_CHECK(!same(known[j], r.f[i].i), "stray-pipe-end", "process %d holds an end of a pipe of the library as descriptor %d", p->id, r.f[i].fd); }
	drop_report(&r);
	if (given_same) vh_count("one descriptor given twice", 1);
	if (p->cb[0]) vh_count("callbacks", 1);
	vh_count("processes started", 1);
	P[np++] = p; { int live = 0; for (i = 0; i < np; i++) live += P[i]->live; vh_max("processes open at once", (uint64_t)live); }
	return p;
}
static void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
static void lib_close(int fd) { int pid; LIB(pid = pr_close_nowait(fd)); VH_CHECK(fcntl(fd, F_GETFD) < 0, "not-closed", "pr_close_nowait left the descriptor open"); (void)pid; }
static void expect_stream(proc *p, int i, const char *b, size_t n)
{
	char *w = malloc(p->nout + p->nerr + 1); size_t nw = 0; char *o = gen(p->nout, p->so), *e = gen(p->nerr, p->se);
	if (i == 1) { memcpy(w, o, p->nout); nw = p->nout; }
	if (i == 2 || p->m[2] == JOIN || (p->m[1] == GIVEN && p->m[2] == GIVEN && same(p->ino[1], p->ino[2]))) { memcpy(w + nw, e, p->nerr); nw += p->nerr; }
	VH_CHECK(n == nw && !memcmp(b, w, n), "output-wrong", "%zu bytes came from descriptor %d of process %d, should be %zu%s", n, i, p->id, nw, n == nw ? " (contents differ)" : "");
	vh_count("bytes read from commands", n); free(w); free(o); free(e);
}
static void finish_group(int g)
{
	double t0 = now_s(); int i, s; proc *q;
	for (i = 0; i < np; i++) if (P[i]->group == g && P[i]->live) for (s = 0; s < 3; s++) { if (P[i]->fd[s] >= 0) nonblock(P[i]->fd[s]); if (P[i]->drain[s] >= 0) nonblock(P[i]->drain[s]); }
	for (;;) {
		struct pollfd pf[NP * 3]; proc *wp[NP * 3]; int ws[NP * 3], n = 0, k;
		for (i = 0; i < np; i++) { q = P[i]; if (q->group != g || !q->live) continue;
			for (s = 0; s < 3; s++) { int fd = q->m[s] == CREATE ? q->fd[s] : q->drain[s]; if (fd < 0) continue;
				if (s == 0 && q->at == q->nin) { vh_op("close the input of %d", q->id); if (q->m[0] == CREATE) { lib_close(fd); q->fd[0] = -1; } else { close(fd); q->drain[0] = -1; } continue; }
				pf[n].fd = fd; pf[n].events = s == 0 ? POLLOUT : POLLIN; pf[n].revents = 0; wp[n] = q; ws[n++] = s; } }
		if (!n) break;
		k = poll(pf, (nfds_t)n, 1000);
		if (now_s() - t0 > 30) vh_fail("no-end-of-file", "process %d: %s did not come to its end within 30 s", wp[0]->id, ws[0] == 0 ? "writing the input" : ws[0] == 1 ? "reading the output" : "reading the error output");
		if (k <= 0) continue;
		for (k = 0; k < n; k++) { if (!pf[k].revents) continue; q = wp[k]; s = ws[k];
			if (s == 0) { size_t want = vh_chance(50) ? 1 + vh_below(5000) : 65536; ssize_t w; if (want > q->nin - q->at) want = q->nin - q->at; w = write(pf[k].fd, q->inb + q->at, want); if (w < 0 && errno != EAGAIN) vh_fail("input-refused", "process %d: writing its input fails: %s", q->id, strerror(errno)); if (w > 0) q->at += (size_t)w; }
			else { ssize_t r; size_t want = vh_chance(50) ? 1 + vh_below(3000) : 65536; if (q->cgot[s] < q->ngot[s] + want) q->got[s] = realloc(q->got[s], q->cgot[s] = q->ngot[s] * 2 + want); r = read(pf[k].fd, q->got[s] + q->ngot[s], want);
				if (r > 0) q->ngot[s] += (size_t)r;
				else if (r == 0) { q->eof[s] = 1; vh_op("end of stream %d of %d", s, q->id); if (q->m[s] == CREATE) { lib_close(q->fd[s]); q->fd[s] = -1; } else { close(q->drain[s]); q->drain[s] = -1; } vh_count("ends of file seen by the reader", 1); }
				else if (errno != EAGAIN && errno != EINTR) vh_fail("output-lost", "process %d: reading stream %d fails: %s", q->id, s, strerror(errno)); }
		}
	}
	for (i = 0; i < np; i++) {
		int st; size_t n; char *b; unsigned long long dn = 0, dg = 0;
		q = P[i]; if (q->group != g || !q->live) continue;
		LIB(st = pr_wait(q->pid)); VH_CHECK(st == 0, "status", "process %d ended with %d", q->id, st);
		for (s = 1; s < 3; s++) {
			if (q->m[s] == CREATE && !(s == 1 && q->to)) expect_stream(q, s, q->got[s] ? q->got[s] : "", q->ngot[s]);
			else if (q->m[s] == GIVEN && q->gfile[s]) { b = vh_read_file(q->gfile[s], &n); expect_stream(q, s, b, n); free(b); }
			else if (q->m[s] == GIVEN && !(s == 2 && same(q->ino[1], q->ino[2])) && !(s == 1 && q->to)) expect_stream(q, s, q->got[s] ? q->got[s] : "", q->ngot[s]);
		}
		b = vh_read_file(q->inrep, &n); VH_CHECK(b, "input-missing", "process %d saw no end of its input", q->id); sscanf(b, "%llu %llx", &dn, &dg); free(b);
		if (q->m[0] == CREATE || q->m[0] == GIVEN) {
			if (q->from) { proc *f = q->from; char *w = malloc(f->nout + f->nerr + 1), *o = gen(f->nout, f->so), *e = gen(f->nerr, f->se); n = f->nout; memcpy(w, o, n); if (f->m[2] == JOIN) { memcpy(w + n, e, f->nerr); n += f->nerr; }
				VH_CHECK(dn == n && dg == digest_of(w, n), "pipeline-data", "process %d read %llu bytes from process %d, should be %zu", q->id, dn, f->id, n); free(w); free(o); free(e); vh_count("pipelines completed", 1); }
			else VH_CHECK(dn == q->nin && dg == digest_of(q->inb, q->nin), "input-wrong", "process %d read %llu bytes of input, should be %zu%s", q->id, dn, q->nin, dn == q->nin ? " (contents differ)" : "");
			vh_count("ends of file seen by a command", 1); vh_count("bytes written to commands", dn);
		} else if (q->m[0] == NUL) VH_CHECK(dn == 0, "null-input", "process %d read %llu bytes from the null device", q->id, dn);
		q->live = 0;
	}
}
static void release(proc *p) { int i; for (i = 0; i < p->nw; i++) free(p->word[i]); free(p->word); for (i = 0; i < 3; i++) { free(p->got[i]); if (p->gfile[i]) { unlink(p->gfile[i]); free(p->gfile[i]); } } unlink(p->ctl); unlink(p->rep); unlink(p->inrep); free(p->ctl); free(p->rep); free(p->inrep); free(p->inb); free(p); }
/* contradictory requests */
static int bad; static int bf[3];
static void refuse(void *a) { int x = 0, y = 0, z = 0; (void)a; (void)bf; forbid_fork = 1; pr_open("/bin/true", bad, &x, &y, &z); }
static void refusals(void)
{
	static const int pair[][2] = { { PR_USE_STDIN, PR_CREATE_STDIN }, { PR_USE_STDOUT, PR_CREATE_STDOUT }, { PR_USE_STDERR, PR_CREATE_STDERR }, { PR_STDERR_TO_STDOUT, PR_USE_STDERR }, { PR_STDERR_TO_STDOUT, PR_CREATE_STDERR } };
	int all = PR_USE_STDIN | PR_USE_STDOUT | PR_USE_STDERR | PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_CREATE_STDERR | PR_STDERR_TO_STDOUT, k = (int)vh_below(6), i; vh_result r;
	if (k < 5) { bad = pair[k][0] | pair[k][1]; for (i = 0; i < 7; i++) if (vh_chance(20)) bad |= all & (1 << i); }
	else { do bad = 1 << vh_below(31); while (bad & all); for (i = 0; i < 12; i++) if (vh_chance(15)) bad |= all & (1 << i); }
	vh_op("refusal of flags 0x%x", bad);
	vh_child(&r, refuse, NULL);
	VH_CHECK(!vh_is_sanitizer(&r), "memory-error", "%s", r.err);
	VH_CHECK(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT && r.errlen && strstr(r.err, "pr_open"), "not-refused", "flags 0x%x were not refused: status 0x%x \"%s\"", bad, r.status, vh_quote(r.err, r.errlen));
	vh_result_free(&r); vh_count("refusals", 1);
}
/* a command run to completion while pipes of others are open: it holds none of them */
static void run_between(void)
{
	static int no; char *rep = strdup(vh_path("s%d.%llu", no, (unsigned long long)vh_case_index)), *ctl = strdup(vh_path("t%d.%llu", no, (unsigned long long)vh_case_index)), b[9000], *c; int i, j, st, want = vh_chance(50) ? 0 : (int)vh_below(200); preport r; fdset_t before, after; const char *d; inode own[3];
	no++; snprintf(b, sizeof b, "report %s\nexit %d\n", rep, want); write_ctl(ctl, b);
	snprintf(b, sizeof b, "vhprobe %s x%d '' \"y z\"", ctl, no); c = vh_arg(b, strlen(b) + 1);
	for (i = 0; i < 3; i++) own[i] = fd_inode(i);
	fd_list(&before); vh_op("run a command to completion"); LIB(st = pr_spawn(c)); fd_list(&after); vh_unarg(c);
	d = fd_diff(&before, &after); VH_CHECK(!d, "parent-descriptors", "after running a command to completion:%s", d);
	VH_CHECK(st == want && read_report(rep, &r), "command-not-run", "pr_spawn gives %d, should be %d", st, want);
	VH_CHECK(r.argc == 5 && !*r.argv[3] && !strcmp(r.argv[4], "y z"), "word-wrong", "the command run to completion got %d words", r.argc);
	for (i = 0; i < r.nfd; i++) {
		if (r.f[i].fd < 3) { VH_CHECK(same(r.f[i].i, own[r.f[i].fd]), "stream-wrong", "descriptor %d of a command run to completion should be inherited", r.f[i].fd); continue; }
		for (j = 0; j < nknown; j++) VH_CHECK(!same(known[j], r.f[i].i), "stray-pipe-end", "a command run to completion holds an end of a pipe of the library as descriptor %d", r.f[i].fd);
	}
	drop_report(&r); unlink(rep); unlink(ctl); free(rep); free(ctl); vh_count("commands run to completion in between", 1);
}
void vh_case(uint64_t idx)
{
	int i, max = vh_chance(10) ? 12 + (int)vh_below(18) : 2 + (int)vh_below(5), steps = max + (int)vh_below(8); uint64_t h = 0; fdset_t a, b; const char *d; int maxlive = 0;
	static const int nb[] = { 0, 0, 0, 10, 61, 130, 300, 1100 }; int bal[1100], bn = nb[vh_below(8)];
	for (i = 0; i < bn; i++) { bal[i] = open("/dev/null", O_RDWR | O_CLOEXEC); if (bal[i] < 0) { bn = i; break; } }   /* descriptors of the caller's own, with some gaps */
	if (bn) for (i = (int)vh_below(4); i > 0; i--) { int q = (int)vh_below(bn); close(bal[q]); bal[q] = bal[--bn]; }
	fd_list(&a); nknown = 0; cases_started = 0;
	wait_eintr_percent = vh_chance(40) ? 40 : 0;
	if (vh_chance(30)) refusals();
	while (steps-- > 0 && np < NP) {
		int live = 0; for (i = 0; i < np; i++) live += P[i]->live;
		if (live > maxlive) maxlive = live;
		if (vh_chance(12)) run_between();
		if (live < max && vh_chance(65)) { proc *p = start(max); h = vh_mix(h, (uint64_t)p->flags * 4099 + p->nin + p->nout * 77); }
		else if (live) { do i = (int)vh_below(np); while (!P[i]->live); vh_op("finish group %d", P[i]->group); finish_group(P[i]->group); }
	}
	for (;;) { int l[NP], n = 0; for (i = 0; i < np; i++) if (P[i]->live) l[n++] = i; if (!n) break; i = l[vh_below(n)]; vh_op("finish group %d", P[i]->group); finish_group(P[i]->group); }
	VH_CHECK(__real_waitpid(-1, NULL, WNOHANG) < 0, "left-process", "a process is left");
	for (i = 0; i < np; i++) release(P[i]);
	vh_digest(h); if (maxlive >= 2) vh_nontrivial();
	if (idx < 3) vh_sample("%d processes, up to %d open at once", np, maxlive);
	np = 0; if (bn >= 61) vh_count("executions with high descriptors", 1);
	fd_list(&b); d = fd_diff(&a, &b); VH_CHECK(!d, "parent-descriptors", "at the end:%s", d);
	while (bn) close(bal[--bn]);
	if (vh_chance(30)) { LIB(_pr_shutdown()); vh_count("shut-downs", 1); }
}
