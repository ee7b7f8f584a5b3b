/* C36: the process around the library.  What a program has arranged for itself -- signals, directory, masks,
   environment, limits, timers, streams, descriptors -- is compared before and after calls of the library, and
   with what started commands see. */
#include "vh.h"
#include <fenv.h>
#include <locale.h>
#include <stdio_ext.h>
#include <wchar.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
static int nest, percent = 100;
#include "facil.h"
#include "logw.h"
extern char **environ;
extern void __real_srandom(unsigned), __real_srand(unsigned), __real_srand48(long);
static unsigned seeded; void __wrap_srandom(unsigned s) { seeded += nest > 0; __real_srandom(s); } void __wrap_srand(unsigned s) { seeded += nest > 0; __real_srand(s); } void __wrap_srand48(long s) { seeded += nest > 0; __real_srand48(s); }
#define NSIG_ 64
#define OWN 6
static int own[OWN], shared[OWN], nown;
typedef struct {
	struct { void *h; int flags; uint64_t mask; } sig[NSIG_ + 1];
	uint64_t blocked, env; ino_t cwd; dev_t cwddev; mode_t um; char loc[200];
	struct rlimit lim[RLIM_NLIMITS]; struct { int on; int fl, fd; ino_t ino; dev_t dev; off_t off; } f[3 + OWN];
	int rnd, exc, prio, dumpable, keep; pid_t pgid, sid; uid_t u, eu; gid_t g, eg; int timers; size_t bs[2]; int lb[2], wide[2]; void *seed; char alt;
	char name[20]; sigset_t dummy;
} snap;
static uint64_t set64(const sigset_t *s) { uint64_t v = 0; int i; for (i = 1; i <= NSIG_; i++) if (sigismember(s, i) == 1) v |= 1ULL << (i - 1); return v; }
static void take(snap *s)
{
	int i; struct stat st; sigset_t m; struct itimerval it; stack_t ss;
	memset(s, 0, sizeof *s);
	for (i = 1; i <= NSIG_; i++) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(i, NULL, &a)) continue; s->sig[i].h = (void *)a.sa_handler; s->sig[i].flags = a.sa_flags; s->sig[i].mask = set64(&a.sa_mask); }
	sigemptyset(&m); sigprocmask(SIG_BLOCK, NULL, &m); s->blocked = set64(&m);
	{ char **e; for (e = environ; e && *e; e++) s->env = vh_mix(s->env, vh_hash_bytes(*e, strlen(*e))); }
	if (!stat(".", &st)) { s->cwd = st.st_ino; s->cwddev = st.st_dev; }
	s->um = umask(077); umask(s->um);
	snprintf(s->loc, sizeof s->loc, "%s", setlocale(LC_ALL, NULL));
	for (i = 0; i < RLIM_NLIMITS; i++) getrlimit(i, &s->lim[i]);
	for (i = 0; i < 3 + nown; i++) { int fd = i < 3 ? i : own[i - 3]; if (fstat(fd, &st)) continue; s->f[i].on = 1; s->f[i].ino = st.st_ino; s->f[i].dev = st.st_dev; s->f[i].fl = fcntl(fd, F_GETFL); s->f[i].fd = fcntl(fd, F_GETFD); s->f[i].off = i == 0 || (i > 2 && !shared[i - 3]) ? lseek(fd, 0, SEEK_CUR) : 0; }
	s->rnd = fegetround(); s->exc = fegetexcept(); s->prio = getpriority(PRIO_PROCESS, 0); s->dumpable = prctl(PR_GET_DUMPABLE); s->keep = prctl(PR_GET_CHILD_SUBREAPER, &i) ? 0 : i; s->pgid = getpgrp(); s->sid = getsid(0); s->u = getuid(); s->eu = geteuid(); s->g = getgid(); s->eg = getegid();
	for (i = 0; i < 3; i++) if (!getitimer(i, &it)) s->timers |= (it.it_value.tv_sec > 1000) << i;
	s->bs[0] = __fbufsize(stdout); s->bs[1] = __fbufsize(stderr); s->lb[0] = __flbf(stdout); s->lb[1] = __flbf(stderr); s->wide[0] = fwide(stdout, 0) > 0; s->wide[1] = fwide(stderr, 0) > 0;
	if (!sigaltstack(NULL, &ss)) s->seed = ss.ss_sp;
	prctl(PR_GET_NAME, s->name);
}
static int limdiff(const snap *a, const snap *b) { int i; for (i = 0; i < RLIM_NLIMITS; i++) if (a->lim[i].rlim_cur != b->lim[i].rlim_cur || a->lim[i].rlim_max != b->lim[i].rlim_max) return i; return -1; }
static const char *where = "";
static void compare(const snap *a, const snap *b)
{
	int i;
	for (i = 1; i <= NSIG_; i++) VH_CHECK(a->sig[i].h == b->sig[i].h && a->sig[i].flags == b->sig[i].flags && a->sig[i].mask == b->sig[i].mask, "signal-disposition", "%s: the handling of signal %d is changed", where, i);
	VH_CHECK(a->blocked == b->blocked, "signal-mask", "%s: the blocked signals are %llx, before %llx", where, (unsigned long long)b->blocked, (unsigned long long)a->blocked);
	VH_CHECK(a->env == b->env, "environment", "%s: the environment is changed", where);
	VH_CHECK(a->cwd == b->cwd && a->cwddev == b->cwddev, "directory", "%s: the working directory is another", where);
	VH_CHECK(a->um == b->um, "umask", "%s: the file creation mask is %o, before %o", where, b->um, a->um);
	VH_CHECK(!strcmp(a->loc, b->loc), "locale", "%s: the locale is \"%s\", before \"%s\"", where, b->loc, a->loc);
	VH_CHECK((i = limdiff(a, b)) < 0, "limits", "%s: limit %d is changed", where, i);
	for (i = 0; i < 3 + nown; i++) {
		VH_CHECK(a->f[i].on == b->f[i].on && a->f[i].ino == b->f[i].ino && a->f[i].dev == b->f[i].dev, "descriptor-lost", "%s: descriptor %d of the program is %s", where, i < 3 ? i : own[i - 3], b->f[i].on ? "another file" : "closed");
		VH_CHECK(a->f[i].fl == b->f[i].fl && a->f[i].fd == b->f[i].fd, "descriptor-flags", "%s: the flags of descriptor %d are %o/%o, before %o/%o", where, i < 3 ? i : own[i - 3], b->f[i].fl, b->f[i].fd, a->f[i].fl, a->f[i].fd);
		VH_CHECK(a->f[i].off == b->f[i].off, "descriptor-position", "%s: the position in descriptor %d is %ld, before %ld", where, i < 3 ? i : own[i - 3], (long)b->f[i].off, (long)a->f[i].off);
	}
	VH_CHECK(a->rnd == b->rnd && a->exc == b->exc, "floating-point", "%s: the floating-point mode is changed", where);
	VH_CHECK(a->prio == b->prio && a->pgid == b->pgid && a->sid == b->sid && a->u == b->u && a->eu == b->eu && a->g == b->g && a->eg == b->eg && a->dumpable == b->dumpable && a->keep == b->keep && !strcmp(a->name, b->name), "identity", "%s: priority, group, session, user or name of the process is changed", where);
	VH_CHECK(a->timers == b->timers && a->seed == b->seed, "timers", "%s: the interval timers set are %d, before %d (or the signal stack is another)", where, b->timers, a->timers);
	for (i = 0; i < 2; i++) VH_CHECK(a->bs[i] == b->bs[i] && a->lb[i] == b->lb[i] && a->wide[i] == b->wide[i], "stream-mode", "%s: the buffering of standard %s is changed", where, i ? "error" : "output");
	VH_CHECK(!seeded, "random-seeded", "%s: the random numbers are seeded", where);
	vh_count("states compared", 1); vh_count("oracle checks", 90);
}
static snap before; static int watching;
static void fac_enter(void) { if (!nest++ && (watching = vh_chance(percent))) take(&before); }
static void fac_leave(void) { if (!--nest && watching) { snap now; take(&now); compare(&before, &now); } }
/* ---- what a command started by the library sees ---- */
static void handler(int s) { (void)s; }
static long field(const char *t, const char *name, int base, uint64_t *v) { const char *p = strstr(t, name); if (!p) return 0; *v = strtoull(p + strlen(name), NULL, base); return 1; }
static char out[1 << 18];
static int ask(const char *cmd)
{
	int n = 0, way = (int)vh_below(4);
	if (way == 0) { fac_enter(); n = pr_filter(cmd, "", 0, out, sizeof out - 1); fac_leave(); }
	else if (way == 3) {
		/* with the output of this process: a file meanwhile */
		int st, save = dup(1), fd; ssize_t k; char *f = vh_path("answer"); fflush(stdout); fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1);
		fac_enter(); st = pr_spawn(cmd); fac_leave(); dup2(save, 1); close(save); VH_CHECK(!st, "command-failed", "pr_spawn of \"%s\" ends with %d", cmd, st);
		while (n < (int)sizeof out - 1 && (k = pread(fd, out + n, sizeof out - 1 - (size_t)n, n)) > 0) n += (int)k;
		close(fd);
	} else {
		int o = -1, e = -1, pid, st, err = vh_chance(40); ssize_t k; fac_enter(); pid = pr_open(cmd, (way == 1 ? PR_USE_STDIN : 0) | PR_CREATE_STDOUT | (err ? PR_CREATE_STDERR : vh_chance(20) ? PR_USE_STDERR : vh_chance(20) ? PR_STDERR_TO_STDOUT : 0), NULL, &o, err ? &e : NULL); fac_leave(); (void)pid;
		while (n < (int)sizeof out - 1 && (k = read(o, out + n, sizeof out - 1 - (size_t)n)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } n += (int)k; }
		fac_enter(); st = pr_close(o); fac_leave(); if (err) { int q; fac_enter(); q = pr_close_nowait(e); fac_leave(); VH_CHECK(q == pid, "child-of-descriptor", "the error descriptor of process %d belongs to %d", pid, q); } VH_CHECK(!st, "command-failed", "\"%s\" ends with %d", cmd, st);
	}
	out[n < 0 ? 0 : n] = 0; vh_count("commands asked", 1); return n;
}
static void command(void)
{
	snap s; uint64_t v, ign = 0; int i, n; char b[4200]; take(&s); where = "what a command sees";
	switch (vh_below(4)) {
	case 0:
		ask("cat /proc/self/status");
		for (i = 1; i <= NSIG_; i++) if (s.sig[i].h == (void *)SIG_IGN) ign |= 1ULL << (i - 1);
		VH_CHECK(field(out, "SigBlk:", 16, &v) && v == s.blocked, "inherited-mask", "a command has the signals %llx blocked, the program %llx", (unsigned long long)v, (unsigned long long)s.blocked);
		VH_CHECK(field(out, "SigIgn:", 16, &v) && v == ign, "inherited-ignored", "a command ignores the signals %llx, the program %llx", (unsigned long long)v, (unsigned long long)ign);
		if (field(out, "Umask:", 8, &v)) VH_CHECK(v == s.um, "inherited-umask", "a command has the file creation mask %o, the program %o", (unsigned)v, s.um);
		break;
	case 1:
		n = ask("readlink /proc/self/cwd"); if (n && out[n - 1] == '\n') out[n - 1] = 0;
		VH_CHECK(getcwd(b, sizeof b) && !strcmp(out, b), "inherited-directory", "a command runs in \"%s\", the program in \"%s\"", out, b);
		break;
	case 2: {
		char **e; size_t at = 0; n = ask("env -0");
		for (e = environ; *e; e++) { size_t l = strlen(*e); VH_CHECK(at + l < (size_t)n && !memcmp(out + at, *e, l + 1), "inherited-environment", "a command has \"%s\" in its environment, the program \"%s\"", vh_quote(out + at, strlen(out + at)), vh_quote(*e, l)); at += l + 1; }
		VH_CHECK(at == (size_t)n, "inherited-environment", "a command has more in its environment: \"%s\"", vh_quote(out + at, (size_t)n - at)); } break;
	default: {
		struct rlimit l; char *p; unsigned long c = 0; ask("cat /proc/self/limits"); getrlimit(RLIMIT_NOFILE, &l); p = strstr(out, "Max open files"); if (p) { c = strtoul(p + 14, NULL, 10); VH_CHECK(c == l.rlim_cur, "inherited-limits", "a command may open %lu files, the program %lu", c, (unsigned long)l.rlim_cur); } } break;
	}
}
/* ---- workloads of this monitor alone: commands of every fate, rotated and system logs, messages ---- */
static const char *const fates[] = { "true", "false", "sh -c 'kill -9 $$'", "sh -c 'kill -PIPE $$'", "/no/such/command", "cat", "sh -c 'cat; exit 3'", "sh -c 'echo text >&2; exec cat'", "sh -c 'exec >/dev/null; cat >/dev/null'", "head -c 0" };
#define NFATE ((int)(sizeof fates / sizeof *fates))
static char bigin[400000], bigout[400000];
static void w_commands(void)
{
	int k = (int)vh_range(1, 4), way = (int)vh_below(4), st = 0, n = 0, save, fd;
	fd = open(vh_path("messages"), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); fflush(stderr); save = fcntl(2, F_DUPFD_CLOEXEC, 200); dup2(fd, 2);
	while (k--) switch (way) {
	case 0: { const char *c = fates[5 + vh_below(3)]; int l = vh_chance(40) ? (int)vh_below(sizeof bigin) : (int)vh_below(300); memset(bigin, 'x', (size_t)l); where = "pr_filter"; L(n = pr_filter(c, bigin, l, bigout, sizeof bigout)); vh_op("filter \"%s\" of %d", c, l); vh_count(l > 65536 ? "filters of much" : "filters", 1); } break;
	case 1: { const char *c = fates[vh_below(6)]; fflush(stdout); where = "pr_spawn"; { int null = open("/dev/null", O_RDWR | O_CLOEXEC), s0 = fcntl(0, F_DUPFD_CLOEXEC, 200); dup2(null, 0); close(null); L(st = pr_spawn(c)); dup2(s0, 0); close(s0); } vh_op("spawn \"%s\"", c); vh_count("commands spawned", 1); } break;
	case 2: {
		/* several open at once; closed in another order */
		int i, in[4], out[4], err[4], pid[4], m = (int)vh_range(1, 4), f[4]; ssize_t q; where = "pr_open";
		for (i = 0; i < m; i++) { f[i] = PR_CREATE_STDIN | PR_CREATE_STDOUT | (vh_chance(50) ? PR_CREATE_STDERR : 0); L(pid[i] = pr_open(vh_chance(80) ? "cat" : fates[vh_below(6)], f[i], &in[i], &out[i], &err[i])); }
		for (i = m - 1; i >= 0; i--) {
			where = "pr_close_nowait"; L(pr_close_nowait(in[i])); while ((q = read(out[i], bigout, 100)) > 0 || (q < 0 && errno == EINTR)) ;
			if (f[i] & PR_CREATE_STDERR) L(pr_close_nowait(err[i]));
			if (vh_chance(50)) { where = "pr_close"; L(st = pr_close(out[i])); } else { L(pr_close_nowait(out[i])); where = "pr_wait"; L(st = pr_wait(pid[i])); }
		}
		vh_count("processes together", (unsigned long)m); vh_op("%d together", m); } break;
	default: {
		/* with descriptors of the program: duplicates are given, the originals stay */
		int i = nown > 1 ? (int)vh_below((uint64_t)nown) : 0, d0 = vh_chance(60) ? open("/dev/null", O_RDWR) : 0, d1 = nown ? dup(own[i]) : 0, o = -1; ssize_t q; where = "pr_open on descriptors given";
		if (vh_chance(50)) { int e = d1; L(st = pr_open("true", PR_USE_STDIN | PR_USE_STDERR | PR_CREATE_STDOUT, &d0, &o, &e)); }
		else { int e = d1; L(st = pr_open("true", PR_USE_STDIN | PR_CREATE_STDERR | PR_USE_STDOUT, &d0, &e, &o)); }
		while ((q = read(o, bigout, 100)) > 0 || (q < 0 && errno == EINTR)) ;
		where = "pr_close"; L(st = pr_close(o)); vh_count("commands on descriptors given", 1); } }
	fflush(stderr); dup2(save, 2); close(save); close(fd); (void)st; (void)n;
}
static void w_logs(void)
{
	int i, n = (int)vh_range(1, 40), sy = vh_chance(50), stdo = vh_chance(30); char pat[300]; static unsigned no; static const char *const fac[] = { "user", "daemon", "local3", "mail" };
	snprintf(pat, sizeof pat, "%s/rl%u-%d/%s", vh_scratch, no++, (int)getpid(), vh_chance(50) ? "%Y/%m/%d/%H/log" : vh_chance(50) ? "a/b/c/d" : "%H%M.log");
	if (vh_chance(40)) snprintf(pat, sizeof pat, "rl%u-%d/%s", no++, (int)getpid(), vh_chance(50) ? "%H/%M" : "log"); else if (vh_chance(20)) snprintf(pat, sizeof pat, "plain-%d", (int)getpid());
	vclock_on = 1; vclock_s = 1700000000 + (long)vh_below(100000000);
	where = "log_file"; L(log_file("id", pat)); if (vh_chance(50)) { where = "log_set_facility"; L(log_set_facility(fac[vh_below(4)])); } if (sy) { where = "log_syslog"; L(log_syslog("id")); }
	if (stdo) { where = "log_stream"; L(log_stream("id", stdout)); }
	for (i = 0; i < n; i++) { if (vh_chance(30)) vclock_s += (long)vh_below(1000000); if (vh_chance(10)) log_option(vh_chance(50) ? LOG_OPTION_FULL : LOG_OPTION_NO_FULL); where = "log_info"; if (vh_chance(60)) L(log_info("record %d\n", i)); else { where = "log_error"; L(log_error("routine", "record %d %s\n", i, vh_chance(10) ? bigin : "")); } }
	where = "log_close"; L(log_close()); vclock_on = 0; sys_reset();
	vh_count("logs rotated", 1);
}
static void w_messages(void)
{
	int save, fd, i, k = (int)vh_range(1, 5); fd = open(vh_path("messages"), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); fflush(stderr); save = fcntl(2, F_DUPFD_CLOEXEC, 200); dup2(fd, 2);
	for (i = 0; i < k; i++) switch (vh_below(4)) {
	case 0: where = "err_warning"; L(err_warning("routine", "text %f %s", 1.0 / 3, vh_chance(20) ? "\xff\x80" : "x")); break;
	case 1: { src_Type t = NULL; char *p; where = "src_print_error"; L(src_create()); L(src_new_file("f")); L(p = (char *)src_line("int a;\n", 7)); (void)p; L(t = src_get(3)); L(src_print_error(vh_chance(50) ? stderr : NULL, t, "text %d", 7)); L(src_parse_error(NULL, t, "parse `T_X'")); L(src_print_message(stderr, t, "m")); L(src_print_line(NULL, t)); L(src_print_stats(NULL)); L(src_destroy()); } break;
	case 2: where = "tim_print_timers"; L(tim_start("t")); L(tim_stop("t")); L(tim_print_timer(stdout, "t")); L(tim_print_timers(stderr)); break;
	default: { hsh_HashTable h = NULL; set_Set t = NULL; where = "statistics on standard output"; L(h = hsh_create(NULL, NULL)); L(hsh_insert(h, "key", "datum")); L(hsh_key_strings(h)); L(hsh_print_stats(h, NULL)); L(hsh_destroy(h)); L(t = set_create(NULL, NULL)); L(set_insert(t, "e")); L(set_print_stats(t, NULL)); L(set_destroy(t)); L(str_print_stats(stderr)); L(dbg_list(stderr)); L(flg_list(stderr)); } }
	fflush(stderr); dup2(save, 2); close(save); close(fd); vh_count("messages", 1);
}
static void (*const extras[])(void) = { w_commands, w_logs, w_messages }; static const char *const extra_names[] = { "commands", "rotated logs", "messages" };
static int open_fds(unsigned char *on, int n) { int i, k = 0; for (i = 0; i < n; i++) k += on[i] = fcntl(i, F_GETFD) >= 0; return k; }
static const int sigs[] = { SIGHUP, SIGINT, SIGQUIT, SIGPIPE, SIGUSR1, SIGUSR2, SIGWINCH, SIGURG, SIGTSTP, SIGTTIN, SIGTTOU, SIGCONT, SIGIO, 37 };
static char *home_dir;
void vh_setup(int argc, char **argv)
{
	(void)argc; (void)argv; fac_setup(); fac_keys(); home_dir = strdup(vh_scratch);
	{ static char eb[4096]; setvbuf(stderr, eb, _IONBF, 0); fputs("\n", stderr); }
	{ FILE *f = fopen(vh_path("in"), "w"); int i; for (i = 0; i < 1000; i++) fputs("the program's own input\n", f); fclose(f); }
	if (!freopen(vh_path("in"), "r", stdin) || !freopen(vh_path("out"), "a", stdout)) vh_inconclusive("streams");
}
void vh_case(uint64_t index)
{
	int i, k, nw = (int)vh_range(2, 9), inited, cmds = 0; char p[64]; sigset_t m; struct itimerval it; unsigned char f0[1024], f1[1024]; static const char *const locs[] = { "C", "C.UTF-8", "POSIX", "" };
	/* the program arranges itself */
	sigemptyset(&m);
	for (i = 0; i < (int)(sizeof sigs / sizeof *sigs); i++) {
		struct sigaction a; memset(&a, 0, sizeof a); switch (vh_below(4)) { case 0: a.sa_handler = SIG_IGN; break; case 1: a.sa_handler = handler; a.sa_flags = vh_chance(50) ? SA_RESTART : 0; if (vh_chance(50)) sigaddset(&a.sa_mask, SIGUSR1); break; default: a.sa_handler = SIG_DFL; }
		sigaction(sigs[i], &a, NULL); if (vh_chance(15)) sigaddset(&m, sigs[i]);
	}
	if (vh_chance(50)) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = vh_chance(50) ? handler : SIG_DFL; a.sa_flags = vh_chance(50) ? SA_RESTART : 0; sigaction(SIGCHLD, &a, NULL); }
	sigprocmask(SIG_SETMASK, &m, NULL);
	umask(vh_chance(50) ? (mode_t[]){ 022, 077, 0, 027, 002 }[vh_below(5)] : (mode_t)vh_below(64));
	snprintf(p, sizeof p, "dir%d", (int)vh_below(5)); { char *d = vh_path("%s", p); mkdir(d, 0777); if (chdir(d)) vh_inconclusive("chdir"); }
	setlocale(LC_ALL, locs[vh_below(4)]);
	for (i = 0; i < 3; i++) { snprintf(p, sizeof p, "VH_VAR_%d", (int)vh_below(6)); if (vh_chance(60)) setenv(p, vh_chance(20) ? "" : vh_chance(50) ? "some value" : "a=b\nc", 1); else unsetenv(p); }
	if (vh_chance(30)) { if (vh_chance(50)) setenv("TZ", "EST5EDT", 1); else unsetenv("TZ"); }
	{ struct rlimit l; if (!getrlimit(RLIMIT_NOFILE, &l)) { rlim_t w = 256 + vh_below(700); if (w <= l.rlim_max) { l.rlim_cur = w; setrlimit(RLIMIT_NOFILE, &l); } } if (!getrlimit(RLIMIT_CORE, &l) && vh_chance(30)) { l.rlim_cur = 0; setrlimit(RLIMIT_CORE, &l); } }
	memset(&it, 0, sizeof it); if (vh_chance(50)) it.it_value.tv_sec = 500000; setitimer(vh_chance(50) ? ITIMER_REAL : ITIMER_VIRTUAL, &it, NULL);
	fesetround((int[]){ FE_TONEAREST, FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO }[vh_below(5)]);
	prctl(PR_SET_NAME, vh_chance(50) ? "monitor" : "other", 0, 0, 0);
	fcntl(0, F_SETFL, vh_chance(30) ? O_NONBLOCK : 0); fcntl(1, F_SETFL, (vh_chance(30) ? O_NONBLOCK : 0) | (vh_chance(80) ? O_APPEND : 0));
	{ static char ob[4096]; setvbuf(stdout, ob, (int[]){ _IOFBF, _IOLBF, _IONBF }[vh_below(3)], sizeof ob); }
	for (nown = 0; nown < OWN;) {
		char *q = vh_path("own%d", nown); int fd = -1; shared[nown] = 0; if (nown + 1 < OWN) shared[nown + 1] = 0;
		switch (vh_below(4)) { case 0: fd = open(q, O_RDWR | O_CREAT | (vh_chance(50) ? O_APPEND : 0) | (vh_chance(50) ? O_CLOEXEC : 0), 0600); if (fd >= 0) lseek(fd, (off_t)vh_below(100), SEEK_SET); break; case 1: { int pp[2]; if (nown + 2 > OWN || pipe2(pp, vh_chance(50) ? O_NONBLOCK : 0)) continue; own[nown++] = pp[0]; fd = pp[1]; } break; case 2: fd = open("/dev/null", O_RDONLY); break; default: shared[nown] = 1; fd = fcntl(2, F_DUPFD, 50 + (int)vh_below(100)); }
		if (fd < 0) vh_inconclusive("descriptors"); own[nown++] = fd;
	}
	seeded = 0; percent = vh_chance(50) ? 100 : 25; fac_ys = vh_u64(); fac_nest_percent = vh_chance(30) ? 20 : 0; fac_big_len = vh_chance(30) ? 20000 : 0;
	inited = vh_chance(60); if (inited) { where = "maa_init"; L(maa_init("prog")); } 
	{ int fl; static const unsigned dbg[] = { MAA_PR, MAA_TIME, MAA_MEMORY, MAA_SRC }; if (inited) for (fl = 0; fl < 4; fl++) if (vh_chance(10)) { where = "dbg_set_flag"; L(dbg_set_flag(dbg[fl])); } }
	for (i = 0; i < nw; i++) {
		int w, n; snap a, b; uint64_t sd = vh_u64();
		do w = (int)vh_below(FAC_N); while (w == FAC_PR && vh_chance(60));
		n = vh_chance(8) ? (int)vh_range(200, 1500) : (int)vh_range(0, 100);
		where = fac_tab[w].name; vh_op("%s/%d", where, n); vh_digest((uint64_t)w * 100000 + (uint64_t)n);
		open_fds(f0, 1024); take(&a); (void)fac_run_at(w, sd, n, 0); nest = 0; where = fac_tab[w].name; take(&b); compare(&a, &b);
		open_fds(f1, 1024); for (k = 0; k < 1024; k++) VH_CHECK(f0[k] == f1[k], "descriptor-left", "after \"%s\" descriptor %d is %s", where, k, f1[k] ? "open" : "closed");
		VH_CHECK(waitpid(-1, NULL, WNOHANG) < 0 && errno == ECHILD, "child-left", "after \"%s\" a child process is left", where);
		vh_count("workloads", 1);
		if (vh_chance(30)) {
			int x = (int)vh_below(3), status, q; pid_t mine = 0; const char *nm = extra_names[x];
			if (x == 0 && vh_chance(40)) { if (!(mine = fork())) _exit(7); }
			open_fds(f0, 1024); take(&a); percent = 100; extras[x](); nest = 0; where = nm; take(&b); compare(&a, &b); open_fds(f1, 1024);
			for (k = 0; k < 1024; k++) VH_CHECK(f0[k] == f1[k], "descriptor-left", "after \"%s\" descriptor %d is %s", nm, k, f1[k] ? "open" : "closed");
			if (mine) { while ((q = waitpid(mine, &status, 0)) < 0 && errno == EINTR) ; VH_CHECK(q == mine && WIFEXITED(status) && WEXITSTATUS(status) == 7, "child-taken", "a child of the program cannot be waited for any more after \"%s\"", nm); vh_count("own children waited for", 1); }
			VH_CHECK(waitpid(-1, NULL, WNOHANG) < 0 && errno == ECHILD, "child-left", "after \"%s\" a child process is left", nm);
			vh_count("further workloads", 1);
		}
		if (vh_chance(25)) { command(); cmds++; }
		if (vh_chance(15)) { FILE *s = vh_chance(50) ? stdout : stderr; where = "log to a standard stream"; L(log_stream("id", s)); L(log_info("a record\n")); L(log_stream(NULL, NULL)); vh_count("logs to standard streams", 1); }
	}
	if (inited) { where = "maa_shutdown"; L(maa_shutdown()); fac_forgotten(); }
	while (nown) close(own[--nown]);
	fesetround(FE_TONEAREST); { sigset_t none; sigemptyset(&none); memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, NULL); setitimer(ITIMER_VIRTUAL, &it, NULL); sigprocmask(SIG_SETMASK, &none, NULL); }
	if (chdir(home_dir)) vh_inconclusive("chdir"); umask(022); fflush(stdout); if (ftruncate(1, 0)) { }
	for (i = 0; i < FAC_N; i++) if (fac_calls[i]) { vh_count(fac_tab[i].name, fac_calls[i]); fac_calls[i] = 0; }
	vh_nontrivial(); if (index % 40 == 3) vh_sample("%d workloads, %d commands asked, %s", nw, cmds, inited ? "initialised" : "not initialised");
}
