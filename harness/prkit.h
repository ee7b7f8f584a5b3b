/* prkit.h -- for the monitors of the process routines: control files, reports, descriptors, interposed calls.
   Link with --wrap for every name in PRW, and with noplain. */
#ifndef PRKIT_H
#define PRKIT_H
#include "vh.h"
#include <dirent.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/resource.h>
#include <sys/socket.h>
extern pid_t __real_fork(void); extern pid_t __real_waitpid(pid_t, int *, int); extern int __real_kill(pid_t, int);
pid_t vh_real_fork(void) { return __real_fork(); }
pid_t vh_real_waitpid(pid_t p, int *s, int o) { return __real_waitpid(p, s, o); }
int vh_real_kill(pid_t p, int s) { return __real_kill(p, s); }
/* calls made by the library while in_lib is set */
static int in_lib, lib_forks, forbid_fork; static unsigned long waits_interrupted; static int wait_eintr_percent;
static int (*on_kill)(pid_t, int);
static int (*on_call)(int); /* refuses a call: sets errno and says so */
enum { C_PIPE, C_FORK, C_WAIT, C_SELECT, C_READ, C_WRITE, C_FCNTL, C_N };
pid_t __wrap_fork(void) { if (in_lib && on_call && on_call(C_FORK)) return -1; if (forbid_fork) { static const char m[] = "vh: a process was started\n"; (void)!write(2, m, sizeof m - 1); _exit(50); } lib_forks++; return __real_fork(); }
pid_t __wrap_vfork(void) { return __wrap_fork(); }
/* as if the process had left a core file: this sandbox writes none */
static unsigned long cores;
static pid_t core_flag(pid_t p, int *s) { if (p > 0 && in_lib && s && WIFSIGNALED(*s) && vh_chance(50)) switch (WTERMSIG(*s)) { case SIGQUIT: case SIGILL: case SIGTRAP: case SIGABRT: case SIGBUS: case SIGFPE: case SIGSEGV: case SIGXCPU: case SIGXFSZ: case SIGSYS: *s |= 0x80; cores++; } return p; }
pid_t __wrap_waitpid(pid_t p, int *s, int o)
{
	static int left;
	if (in_lib && on_call && on_call(C_WAIT)) return -1;
	if (in_lib && !(o & WNOHANG) && wait_eintr_percent) {
		if (left > 0) { left--; waits_interrupted++; errno = EINTR; return -1; }
		if (vh_chance(wait_eintr_percent)) { left = (int)vh_below(4); waits_interrupted++; errno = EINTR; return -1; }
	}
	return core_flag(__real_waitpid(p, s, o), s);
}
extern pid_t __real_wait4(pid_t, int *, int, struct rusage *);
pid_t __wrap_wait4(pid_t p, int *s, int o, struct rusage *u) { if (in_lib && on_call && on_call(C_WAIT)) return -1; if (in_lib && !(o & WNOHANG) && wait_eintr_percent && vh_chance(wait_eintr_percent)) { waits_interrupted++; errno = EINTR; return -1; } return core_flag(__real_wait4(p, s, o, u), s); }
int __wrap_kill(pid_t p, int s) { if (in_lib && on_kill) return on_kill(p, s); return __real_kill(p, s); }
int __wrap_killpg(int p, int s) { return __wrap_kill(-p, s); }
#define LIB(e) do { in_lib = 1; e; in_lib = 0; } while (0)
/* ---- descriptors of this process ---- */
#define FDMAX 4096
typedef struct { unsigned char on[FDMAX]; } fdset_t;
static void fd_list(fdset_t *f) { DIR *d = opendir("/proc/self/fd"); struct dirent *e; memset(f, 0, sizeof *f); while ((e = readdir(d))) { int n; if (e->d_name[0] == '.') continue; n = atoi(e->d_name); if (n != dirfd(d) && n < FDMAX) f->on[n] = 1; } closedir(d); }
static __attribute__((unused)) const char *fd_diff(const fdset_t *want, const fdset_t *got) { static char b[300]; int i, n = 0; *b = 0; for (i = 0; i < FDMAX && n < 250; i++) if (want->on[i] != got->on[i]) { char l[128] = "", p[40]; if (got->on[i]) { ssize_t k; snprintf(p, sizeof p, "/proc/self/fd/%d", i); k = readlink(p, l, 100); l[k < 0 ? 0 : k] = 0; } n += snprintf(b + n, sizeof b - n, "%s%d%s%s", got->on[i] ? " stray " : " lost ", i, *l ? "=" : "", l); } return *b ? b : NULL; }
typedef struct { unsigned long long dev, ino; } inode;
static __attribute__((unused)) inode fd_inode(int fd) { struct stat s; inode r = {0, 0}; if (!fstat(fd, &s)) { r.dev = s.st_dev; r.ino = s.st_ino; } return r; }
/* ---- generated data, as the probe does ---- */
static __attribute__((unused)) char *gen(size_t n, uint64_t s) { char *b = malloc(n + 1); size_t i; for (i = 0; i < n; i++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = (char)(s >> 56); } b[n] = 0; return b; }
static __attribute__((unused)) uint64_t digest_of(const char *b, size_t n) { uint64_t h = 1469598103934665603ULL; while (n--) { h ^= (unsigned char)*b++; h *= 1099511628211ULL; } return h; }
static __attribute__((unused)) void write_ctl(const char *path, const char *text) { FILE *f = fopen(path, "we"); if (!f) { perror(path); _exit(20); } fputs(text, f); fclose(f); }
/* ---- reports ---- */
static __attribute__((unused)) int is_transfer(int fd) { struct stat s; return fd > 2 && !fstat(fd, &s) && (S_ISFIFO(s.st_mode) || S_ISSOCK(s.st_mode)); }
typedef struct { int have, pid, ppid, argc, room; char **argv; char env[64]; int nfd; struct { int fd; inode i; unsigned long long rdev; int acc; } f[64]; } preport;
static __attribute__((unused)) int read_report(const char *path, preport *r)
{
	size_t n; char *b = vh_read_file(path, &n), *l, *sv = NULL;
	memset(r, 0, sizeof *r);
	if (!b) return 0;
	r->have = 1;
	for (l = strtok_r(b, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
		if (!strncmp(l, "pid ", 4)) r->pid = atoi(l + 4);
		else if (!strncmp(l, "ppid ", 5)) r->ppid = atoi(l + 5);
		else if (!strncmp(l, "env ", 4)) snprintf(r->env, sizeof r->env, "%s", l + 4);
		else if (!strncmp(l, "arg ", 4)) { size_t k = strlen(l + 4) / 2, i; char *a = malloc(k + 1); for (i = 0; i < k; i++) { unsigned v; sscanf(l + 4 + 2 * i, "%2x", &v); a[i] = (char)v; } a[k] = 0; if (r->argc == r->room) { r->room = r->room * 2 + 64; r->argv = realloc(r->argv, sizeof *r->argv * (size_t)r->room); } r->argv[r->argc++] = a; }
		else if (!strncmp(l, "fd ", 3) && r->nfd < 64) { sscanf(l, "fd %d %llu %llu %llu %d", &r->f[r->nfd].fd, &r->f[r->nfd].i.dev, &r->f[r->nfd].i.ino, &r->f[r->nfd].rdev, &r->f[r->nfd].acc); r->nfd++; }
	}
	free(b);
	return 1;
}
static __attribute__((unused)) void drop_report(preport *r) { while (r->argc) free(r->argv[--r->argc]); free(r->argv); r->argv = NULL; r->room = 0; }
static __attribute__((unused)) int wait_file(const char *path, int ms) { struct stat s; int i; struct timespec t = {0, 1000000}; for (i = 0; i < ms; i++) { if (!stat(path, &s)) return 1; nanosleep(&t, NULL); } return 0; }
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
/* one word of a command line, in a form the splitter understands */
static __attribute__((unused)) size_t render_word(char *o, const char *w)
{
	char *s = o; int how = (int)vh_below(4), sq = strchr(w, '\'') != NULL, dq = strchr(w, '"') != NULL;
	if (!*w) { s += sprintf(s, "%s", vh_chance(50) ? "\"\"" : "''"); return (size_t)(s - o); }
	if (how == 1 && !sq) s += sprintf(s, "'%s'", w);
	else if (how == 2 && !dq) s += sprintf(s, "\"%s\"", w);
	else for (; *w; w++) { if (strchr(" \t\r\v\n\"'\\", *w) || vh_chance(5)) *s++ = '\\'; *s++ = *w; }
	*s = 0;
	return (size_t)(s - o);
}
static unsigned long n_ticks; static timer_t tick_timer;
static __attribute__((unused)) void tick(int s) { (void)s; n_ticks++; }
static __attribute__((unused)) void tick_setup(void)
{
	struct sigevent ev; struct sigaction sa;
	memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sigaction(SIGUSR1, &sa, NULL);   /* no SA_RESTART */
	memset(&ev, 0, sizeof ev); ev.sigev_notify = SIGEV_SIGNAL; ev.sigev_signo = SIGUSR1;
	if (timer_create(CLOCK_MONOTONIC, &ev, &tick_timer) < 0) { perror("timer_create"); _exit(20); }
}
static __attribute__((unused)) void ticks(long ns) { struct itimerspec t; memset(&t, 0, sizeof t); t.it_value.tv_nsec = t.it_interval.tv_nsec = ns; timer_settime(tick_timer, 0, &t, NULL); }
static const char *helper;
static char *home;                       /* link to the probe, with a short name, in scratch */
static __attribute__((unused)) void pr_setup(void)
{
	char *p; helper = getenv("VH_HELPER");
	if (!helper) { fprintf(stderr, "no probe\n"); _exit(20); }
	home = strdup(vh_path("probe x")); p = strdup(vh_path("vhprobe"));
	if (symlink(helper, home) < 0 && errno != EEXIST) { perror("symlink"); _exit(20); }
	if (symlink(helper, p) < 0 && errno != EEXIST) { perror("symlink"); _exit(20); }
	{ char *e; if (asprintf(&e, "%s:%s", vh_scratch, getenv("PATH")) < 0) _exit(20); setenv("PATH", e, 1); }
	{ struct rlimit l; if (!getrlimit(RLIMIT_NOFILE, &l) && l.rlim_cur < 2048 && l.rlim_max >= 2048) { l.rlim_cur = 2048; setrlimit(RLIMIT_NOFILE, &l); } }
	signal(SIGPIPE, SIG_IGN); unsetenv("VH_CB");
}
#endif
