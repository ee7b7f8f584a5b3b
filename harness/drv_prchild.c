/* C24: child processes are waited for once, reported truly, never leaked */
#include "prkit.h"
#include <sys/resource.h>
enum { EXITS, DIES, AT_EOF, FOREVER, NOEXEC, ALIEN };
typedef struct { int kind, pid, expect, fd[3], collected, gone, stopped; char *ctl, *started; } child;
#define NC 64
static child C[NC]; static int nc, files; static fdset_t model; static uint64_t h;
static int nopen(const child *c) { return (c->fd[0] >= 0) + (c->fd[1] >= 0) + (c->fd[2] >= 0); }
static unsigned long kills_seen;
static int judge_kill(pid_t p, int s)
{
	int i;
	for (i = 0; i < nc; i++) if (C[i].pid == p && C[i].kind != ALIEN) {
		if (C[i].collected) vh_fail("signal-to-collected", "signal %d is sent to process %d, which was already waited for", s, (int)p);
		if (!nopen(&C[i])) vh_fail("signal-to-closed", "signal %d is sent to process %d, which has no open pipes", s, (int)p);
		kills_seen++;
		return __real_kill(p, s);
	}
	vh_fail("signal-to-stranger", "signal %d is sent to %d, which was not started through the library", s, (int)p);
}
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; pr_setup(); tick_setup(); on_kill = judge_kill; signal(SIGUSR2, SIG_IGN); }
static void check_fds(const char *after) { fdset_t f; const char *d; fd_list(&f); d = fd_diff(&model, &f); VH_CHECK(!d, "descriptors", "after %s:%s", after, d); vh_count("descriptor lists compared", 1); }
static const int sigs[] = { SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGKILL, SIGUSR1, SIGSEGV, SIGUSR2, SIGPIPE, SIGPIPE, SIGALRM, SIGTERM, SIGXCPU, SIGXFSZ, SIGVTALRM, SIGPROF, SIGIO, SIGSYS, 34, 50, 64 };
static int forced = -1; /* the exit status or the number of the signal */
static char *command(child *c, int kind)
{
	char t[300], *p = t, *cmd; int s;
	c->kind = kind; c->ctl = c->started = NULL; c->fd[0] = c->fd[1] = c->fd[2] = -1; c->collected = c->gone = c->stopped = 0;
	if (kind == NOEXEC) {
		char *d = vh_path("plain%d.%llu", files++, (unsigned long long)vh_case_index);
		c->expect = 127;
		switch (vh_below(4)) {
		case 0: return strdup("/nonexistent/command with args");
		case 1: return strdup(vh_scratch);
		case 2: write_ctl(d, "just text\n"); c->ctl = strdup(d); return strdup(d);
		default: return strdup(vh_chance(50) ? "no-such-command-anywhere x" : "\"\"");
		}
	}
	if (vh_chance(25)) p += sprintf(p, "sleep %d\n", (int)vh_below(15000));
	if (vh_chance(12)) { p += sprintf(p, "pause\n"); vh_count("commands stopped and continued", 1); }
	if (kind == AT_EOF) p += sprintf(p, "waiteof\n");
	if (kind == FOREVER) { p += sprintf(p, "touch %s\n", c->started = strdup(vh_path("s%d.%llu", files++, (unsigned long long)vh_case_index))); if (vh_chance(50)) p += sprintf(p, "ignore\n"); p += sprintf(p, "forever\n"); }
	else if (kind == DIES) { s = forced >= 0 ? forced : sigs[vh_below(sizeof sigs / sizeof *sigs)]; p += sprintf(p, "sig %d\n", s); c->expect = s == SIGPIPE ? 0 : 128 + s; }
	else { s = forced >= 0 ? forced : vh_chance(20) ? 0 : (int)vh_below(256); p += sprintf(p, "exit %d\n", s); c->expect = s; }
	{ /* sometimes a name that has to be quoted */
		char odd[12]; int i, n = vh_chance(40) ? 1 + (int)vh_below(8) : 0; for (i = 0; i < n; i++) odd[i] = " \t'\"\\*$;n0|&\n\r\v`"[vh_below(17)]; odd[n] = 0; if (n) vh_count("commands with words to be quoted", 1);
		c->ctl = strdup(vh_path("c%d%s.%llu", files++, odd, (unsigned long long)vh_case_index)); write_ctl(c->ctl, t);
	}
	cmd = malloc(2 * strlen(c->ctl) + 100); p = cmd; if (vh_chance(10)) *p++ = ' '; p += render_word(p, vh_chance(20) ? home : "vhprobe"); *p++ = " \t"[vh_below(2)]; p += render_word(p, c->ctl);
	if (vh_chance(20)) strcpy(p, " \"another word\" '' ");
	return cmd;
}
static const char *const KN[] = { "exits", "dies by a signal", "ends at end of file", "runs for ever", "cannot be run", "alien" };
static void do_open(void)
{
	static const int CF[3] = { PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDERR }, UF[3] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR }; int given[3], gs = -1; child *from = NULL; child *c = &C[nc]; int kind = (int)vh_below(5), flags = 0, i; char *cmd = command(c, kind);
	for (i = 0; i < 3; i++) if (vh_chance(45)) flags |= CF[i];
	if (kind == AT_EOF) flags |= PR_CREATE_STDIN;
	if (!(flags & PR_CREATE_STDERR) && vh_chance(20)) flags |= PR_STDERR_TO_STDOUT;
	if (nc && vh_chance(30)) { /* a pipe of another process is given to this one, and is none of the program's any more */
		int k = (int)vh_below(3), s = (int)vh_below(3); child *g = &C[vh_below(nc)];
		if (!g->gone && g->kind != ALIEN && g->fd[s] >= 0 && !(s == 0 && g->kind == AT_EOF) && !(flags & CF[k]) && !(k == 2 && flags & PR_STDERR_TO_STDOUT)) { flags |= UF[k]; gs = k; from = g; given[0] = s; given[1] = c->fd[k] = g->fd[s]; }
	}
	if (gs >= 0) vh_op("give it descriptor %d (%d) of child %d as its %d", given[0], given[1], (int)(from - C), gs);
	LIB(c->pid = pr_open(cmd, flags, &c->fd[0], &c->fd[1], &c->fd[2]));
	if (gs >= 0) { model.on[given[1]] = 0; from->fd[given[0]] = -1; vh_count("pipes given to another process", 1); }
	for (i = 0; i < 3; i++) { if (!(flags & CF[i])) c->fd[i] = -1; else model.on[c->fd[i]] = 1; }
	vh_op("open child %d: %s (expected %d), pipes %d %d %d, pid %d", nc, KN[kind], c->expect, c->fd[0], c->fd[1], c->fd[2], c->pid);
	for (i = 0; i < nc; i++) if (C[i].pid == c->pid) C[i].pid = -1;   /* an id used again */
	free(cmd); nc++; vh_count("children started", 1); h = vh_mix(h, (uint64_t)(kind * 1000 + flags));
	check_fds("starting a process");
}
static int ends(const child *c) { return !c->stopped && (c->kind == EXITS || c->kind == DIES || c->kind == NOEXEC || (c->kind == AT_EOF && c->fd[0] < 0)); }
static void judge(child *c, int got, const char *how)
{
	int want = c->collected ? 0 : c->expect;
	VH_CHECK(got == want, "status", "%s of child %d (%s%s) gives %d, should be %d", how, (int)(c - C), KN[c->kind], c->collected ? ", already collected" : "", got, want);
	VH_CHECK(__real_waitpid(c->pid, NULL, WNOHANG) < 0 && errno == ECHILD, "not-collected", "after %s child %d is still there", how, (int)(c - C));
	vh_count(c->collected ? "statuses of collected children" : c->kind == NOEXEC ? "statuses of commands that cannot run" : c->kind == DIES ? "statuses of killed children" : "exit statuses", 1);
	c->collected = 1;
}
static void shut(int final)
{
	int i, s, whole = vh_chance(40); struct timespec nap = {0, 0};
	(void)final;
	vh_op("shut down (%s)", whole ? "whole library" : "processes");
	if (whole) maa_init("monitor");
	LIB(whole ? maa_shutdown() : _pr_shutdown());
	for (i = 0; i < nc; i++) {
		child *c = &C[i];
		if (c->gone) continue;
		if (c->kind == ALIEN) { VH_CHECK(__real_waitpid(c->pid, NULL, WNOHANG) == 0, "stranger-killed", "shutting down ended a process not started through the library"); continue; }
		if (nopen(c)) {
			int was = c->collected;
			if (!was) { int r = __real_waitpid(c->pid, NULL, WNOHANG); VH_CHECK(r < 0, "left-by-shutdown", "after shutting down child %d (%s, open pipes) is %s", i, KN[c->kind], r == 0 ? "still running" : "not collected"); vh_count("children ended by shutdown", 1); }
			c->collected = 1; c->gone = 1;
			for (s = 0; s < 3; s++) if (c->fd[s] >= 0) { close(c->fd[s]); model.on[c->fd[s]] = 0; c->fd[s] = -1; }
		} else if (!c->collected && c->kind == FOREVER) { nanosleep(&nap, NULL); VH_CHECK(__real_waitpid(c->pid, NULL, WNOHANG) == 0, "closed-killed", "shutting down ended child %d, whose pipes were closed", i); vh_count("closed children left alone", 1); }
	}
	vh_count("shut-downs", 1);
	{ fdset_t f; int k; fd_list(&f); for (k = 0; k < FDMAX; k++) if (f.on[k] && !model.on[k]) vh_fail("descriptors", "after shutting down descriptor %d is left", k); }
}
void vh_case(uint64_t idx)
{
	int steps = 10 + (int)vh_below(40), i, cycles = 0, collected = 0; unsigned long w0 = waits_interrupted, t0 = n_ticks, k0 = kills_seen, c0 = cores;
	static int limited = -1; int extra[1000], nextra = vh_chance(40) ? (int)vh_below(vh_chance(25) ? 950 : 100) : 0;
	if (limited < 0 && (limited = vh_chance(50))) { /* the first use is made with a low limit on descriptors */
		struct rlimit rl, low; getrlimit(RLIMIT_NOFILE, &rl); low = rl; low.rlim_cur = 24; setrlimit(RLIMIT_NOFILE, &low);
		pr_spawn("true"); setrlimit(RLIMIT_NOFILE, &rl);
	}
	for (i = 0; i < nextra; i++) extra[i] = open("/dev/null", O_RDONLY | O_CLOEXEC);
	if (limited && nextra > 30) vh_count("histories beyond the first limit on descriptors", 1);
	fd_list(&model); nc = 0; h = 0; files = 0;
	wait_eintr_percent = vh_chance(60) ? (int)vh_below(90) : 0;
	if (vh_chance(40)) ticks(100000 + (long)vh_below(2000000));
	for (i = 0; i < 4; i++) { /* every status and every deadly signal in its turn, each by all three ways */
		child t; int way = i < 3 ? i : (int)(idx % 3), kind = i < 3 ? EXITS : DIES, got; char *cmd;
		static const char *const WN[] = { "pr_spawn", "pr_close", "pr_wait" };
		forced = i < 3 ? (int)((idx + (uint64_t)i * 85) % 256) : sigs[idx / 3 % (sizeof sigs / sizeof *sigs)];
		cmd = command(&t, kind); forced = -1;
		if (way == 0) LIB(got = pr_spawn(cmd));
		else {
			int fd = -1, pid; LIB(pid = pr_open(cmd, PR_CREATE_STDOUT, NULL, &fd, NULL)); t.pid = pid; t.fd[1] = fd; C[0] = t; nc = 1;
			if (way == 1) LIB(got = pr_close(fd)); else { LIB(got = pr_wait(pid)); C[0].collected = 1; LIB(pr_close_nowait(fd)); }
			nc = 0;
		}
		VH_CHECK(got == t.expect, "status", "%s of a command that %s gives %d, should be %d", WN[way], KN[kind], got, t.expect);
		free(cmd); if (t.ctl) { unlink(t.ctl); free(t.ctl); } if (t.started) free(t.started);
		check_fds("a command of a given status"); vh_count("statuses in turn", 1);
	}
	while (steps--) {
		int live[NC], n = 0, k; child *c;
		for (i = 0; i < nc; i++) if (!C[i].gone && C[i].kind != ALIEN && C[i].pid > 0) live[n++] = i;
		k = (int)vh_below(100);
		if (nc < NC - 2 && (k < 25 || !n)) { if (n < 12) do_open(); continue; }
		c = &C[live[vh_below(n ? n : 1)]];
		if (k < 35) {    /* run to completion */
			child t; int got; char *cmd = command(&t, (int[]) { EXITS, DIES, NOEXEC }[vh_below(3)]);
			vh_op("spawn: %s, expected %d", KN[t.kind], t.expect);
			LIB(got = pr_spawn(cmd)); VH_CHECK(got == t.expect, "spawn-status", "pr_spawn of a command that %s gives %d, should be %d", KN[t.kind], got, t.expect);
			free(cmd); if (t.ctl) { unlink(t.ctl); free(t.ctl); } vh_count("commands run to completion", 1); check_fds("pr_spawn");
		} else if (k < 50) { /* close without waiting */
			int s = (int)vh_below(3), pid, fd = c->fd[s]; if (fd < 0) continue;
			vh_op("close descriptor %d of child %d", s, (int)(c - C));
			LIB(pid = pr_close_nowait(fd)); c->fd[s] = -1; model.on[fd] = 0;
			VH_CHECK(pid == c->pid, "close-pid", "pr_close_nowait returns %d, the process is %d", pid, c->pid);
			check_fds("pr_close_nowait"); vh_count("closings without waiting", 1);
		} else if (k < 68) { /* close and wait */
			int s = (int)vh_below(3), got, fd = c->fd[s]; child t = *c; if (fd < 0) continue;
			t.fd[s] = -1; if (!ends(&t) && !c->collected) continue;
			vh_op("close descriptor %d of child %d and wait", s, (int)(c - C));
			LIB(got = pr_close(fd)); c->fd[s] = -1; model.on[fd] = 0;
			judge(c, got, "pr_close"); check_fds("pr_close"); collected++;
		} else if (k < 80) { /* wait */
			int got; if (!ends(c) && !c->collected) continue;
			vh_op("wait for child %d", (int)(c - C));
			LIB(got = pr_wait(c->pid)); judge(c, got, "pr_wait"); check_fds("pr_wait"); collected++;
		} else if (k < 88) { /* killed or stopped by somebody */
			if (c->collected || c->kind == ALIEN || c->kind == NOEXEC) continue;
			if (c->kind == FOREVER && vh_chance(30)) { if (!wait_file(c->started, 20000)) vh_fail("command-not-run", "child %d did not start", (int)(c - C)); /* before that it has the pipes of the others still open */ vh_op("stop child %d", (int)(c - C)); __real_kill(c->pid, SIGSTOP); c->stopped = 1; continue; }
			if (c->kind == FOREVER || (c->kind == AT_EOF && c->fd[0] >= 0)) { vh_op("kill child %d", (int)(c - C)); __real_kill(c->pid, SIGKILL); c->kind = DIES; c->stopped = 0; c->expect = 128 + SIGKILL; vh_count("children killed from outside", 1); }
		} else if (k < 94) { /* a process of the program's own */
			child *a = &C[nc]; int quick = vh_chance(40);
			if (nc >= NC - 2) continue;
			memset(a, 0, sizeof *a); a->kind = ALIEN; a->fd[0] = a->fd[1] = a->fd[2] = -1;
			if ((a->pid = __real_fork()) == 0) { int z; for (z = 3; z < 1100; z++) close(z); alarm(200); if (quick) _exit(42); for (;;) pause(); }
			a->expect = quick; for (i = 0; i < nc; i++) if (C[i].pid == a->pid) C[i].pid = -1;
			nc++; vh_op("own process %d%s", a->pid, quick ? " that exits" : ""); vh_count("processes of the program's own", 1);
			if (quick) { siginfo_t si; memset(&si, 0, sizeof si); while (waitid(P_PID, (id_t)a->pid, &si, WEXITED | WNOWAIT) < 0 && errno == EINTR) ; }
		} else {
			/* own processes that ended have to be still collectable */
			for (i = 0; i < nc; i++) if (C[i].kind == ALIEN && C[i].expect && !C[i].gone) { int st = 0, r; do r = __real_waitpid(C[i].pid, &st, 0); while (r < 0 && errno == EINTR); VH_CHECK(r == C[i].pid && WIFEXITED(st) && WEXITSTATUS(st) == 42, "stranger-collected", "the library collected a process it did not start"); C[i].gone = 1; }
			shut(0); cycles++;
		}
	}
	for (i = 0; i < nc; i++) if (C[i].kind == ALIEN && C[i].expect && !C[i].gone) { int st = 0, r; do r = __real_waitpid(C[i].pid, &st, 0); while (r < 0 && errno == EINTR); VH_CHECK(r == C[i].pid && WIFEXITED(st) && WEXITSTATUS(st) == 42, "stranger-collected", "the library collected a process it did not start"); C[i].gone = 1; }
	shut(1);
	ticks(0);
	/* what the program still has to collect itself */
	for (i = 0; i < nc; i++) {
		child *c = &C[i];
		if (!c->gone && c->pid > 0 && !c->collected) {
			int st = 0, r;
			if (c->kind == ALIEN || c->kind == FOREVER || c->kind == AT_EOF) __real_kill(c->pid, SIGKILL);
			r = __real_waitpid(c->pid, &st, 0);
			VH_CHECK(r == c->pid, "collected-by-stranger", "child %d (%s), closed but not waited for, was collected by something else", i, KN[c->kind]);
			if (c->kind == EXITS || c->kind == DIES || c->kind == NOEXEC) { int e = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGPIPE ? 0 : 128 + WTERMSIG(st); VH_CHECK(e == c->expect, "ended-otherwise", "child %d (%s), closed but not waited for, ended with %d instead of %d", i, KN[c->kind], e, c->expect); }
		}
		if (c->started) { unlink(c->started); free(c->started); c->started = NULL; }
		if (c->ctl) { unlink(c->ctl); free(c->ctl); c->ctl = NULL; }
	}
	VH_CHECK(__real_waitpid(-1, NULL, WNOHANG) < 0 && errno == ECHILD, "left-process", "a process is left");
	check_fds("the last shut-down"); for (i = 0; i < nextra; i++) close(extra[i]);
	vh_count("waits interrupted", waits_interrupted - w0); vh_count("statuses with a core file", cores - c0); vh_count("real signals", n_ticks - t0); vh_count("signals judged", kills_seen - k0);
	vh_digest(h); vh_digest((uint64_t)(cycles * 100 + collected)); if (collected && nc > 2) vh_nontrivial();
	if (idx < 3) vh_sample("%d children, %d collected, %d shut-downs before the last", nc, collected, cycles);
}
