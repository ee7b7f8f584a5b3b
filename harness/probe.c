/* probe.c -- the command started by the monitors of the process routines.
   argv[1] names a control file; the other arguments are only reported. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
static uint64_t g;
static unsigned char next(void) { g = g * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned char)(g >> 56); }
static void put(int fd, const void *b, size_t n) { const char *p = b; while (n) { ssize_t w = write(fd, p, n); if (w < 0) { if (errno == EINTR) continue; if (errno == EAGAIN) { usleep(200); continue; } _exit(91); } p += w; n -= (size_t)w; } }
static ssize_t get(int fd, void *b, size_t n) { for (;;) { ssize_t r = read(fd, b, n); if (r >= 0) return r; if (errno == EINTR) continue; if (errno == EAGAIN) { usleep(200); continue; } _exit(92); } }
static void nap(long us) { if (us > 0) usleep((useconds_t)us); }
static uint64_t dg = 1469598103934665603ULL, dn;
static void dig(const unsigned char *b, size_t n) { dn += n; while (n--) { dg ^= *b++; dg *= 1099511628211ULL; } }
static void note(const char *path) { char t[4096]; FILE *f; snprintf(t, sizeof t, "%s.tmp", path); if (!(f = fopen(t, "w"))) _exit(93); fprintf(f, "%llu %llx\n", (unsigned long long)dn, (unsigned long long)dg); fclose(f); rename(t, path); }
static void report(const char *path, int argc, char **argv)
{
	char t[4096]; FILE *f; DIR *d; struct dirent *e; int i; const char *p;
	snprintf(t, sizeof t, "%s.tmp", path);
	if (!(f = fopen(t, "we"))) _exit(93);
	fprintf(f, "pid %d\nppid %d\n", (int)getpid(), (int)getppid());
	for (i = 0; i < argc; i++) { fprintf(f, "arg "); for (p = argv[i]; *p; p++) fprintf(f, "%02x", (unsigned char)*p); fprintf(f, "\n"); }
	fprintf(f, "env %s\n", getenv("VH_CB") ? getenv("VH_CB") : "-");
	if ((d = opendir("/proc/self/fd"))) {
		while ((e = readdir(d))) { int n = atoi(e->d_name); struct stat s; if (e->d_name[0] == '.' || n == dirfd(d) || n == fileno(f)) continue; if (!fstat(n, &s)) fprintf(f, "fd %d %llu %llu %llu %d\n", n, (unsigned long long)s.st_dev, (unsigned long long)s.st_ino, S_ISCHR(s.st_mode) ? (unsigned long long)s.st_rdev : 0ULL, fcntl(n, F_GETFL) & O_ACCMODE); }
		closedir(d);
	}
	fclose(f); rename(t, path);
}
/* the filter: reads everything; what it writes depends on the kind only */
static void filter(int kind, long k, long rchunk, long wchunk, long delay, uint64_t seed)
{
	unsigned char *b = malloc((size_t)rchunk + 1); ssize_t n; char *all = NULL; size_t na = 0, ca = 0; unsigned long at = 0;
	if (kind == 4) { long i; char *o = malloc((size_t)k + 1); g = seed; for (i = 0; i < k; i++) o[i] = (char)next(); for (i = 0; i < k; i += wchunk) { put(1, o + i, (size_t)(k - i < wchunk ? k - i : wchunk)); nap(delay); } free(o); }
	while ((n = get(0, b, (size_t)rchunk)) > 0) {
		ssize_t i; long j;
		dig(b, (size_t)n);
		for (i = 0; i < n; i++, at++) {
			long times = kind == 0 ? 1 : kind == 1 ? k : kind == 2 ? at % (unsigned long)k == 0 : kind == 3 ? 1 : 0;
			for (j = 0; j < times; j++) { if (na == ca) all = realloc(all, ca = ca * 2 + 4096); all[na++] = (char)b[i]; }
		}
		if (kind < 3) { size_t o; for (o = 0; o < na; o += (size_t)wchunk) put(1, all + o, na - o < (size_t)wchunk ? na - o : (size_t)wchunk); na = 0; }
		nap(delay);
	}
	if (kind == 3) { size_t o; for (o = 0; o < na; o += (size_t)wchunk) { put(1, all + o, na - o < (size_t)wchunk ? na - o : (size_t)wchunk); nap(delay); } }
}
int main(int argc, char **argv)
{
	static char ctl[65536]; char *l, *sv = NULL; int fd; ssize_t n; struct rlimit rl = {0, 0}; int i;
	setrlimit(RLIMIT_CORE, &rl);
	signal(SIGPIPE, SIG_DFL); signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL);
	prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(150);
	if (argc < 2 || (fd = open(argv[1], O_RDONLY | O_CLOEXEC)) < 0) return 94;
	n = read(fd, ctl, sizeof ctl - 1); if (n < 0) return 95;
	close(fd);
	for (l = strtok_r(ctl, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
		char w[32], p[4000]; long a = 0, b = 0, c = 0, d = 0, k = 0; unsigned long long s = 0;
		*p = 0; sscanf(l, "%31s %3999s", w, p);
		if (!strcmp(w, "report")) report(p, argc, argv);
		else if (!strcmp(w, "gen")) { unsigned char o[5000]; long left, m; sscanf(l, "%*s %ld %ld %llu", &a, &b, &s); g = s; for (left = b; left; left -= m) { m = left < 5000 ? left : 5000; for (c = 0; c < m; c++) o[c] = next(); put((int)a, o, (size_t)m); } }
		else if (!strcmp(w, "in")) { static unsigned char o[70000]; ssize_t r; sscanf(l, "%*s %*s %ld %ld", &a, &b); while ((r = get(0, o, a > 0 ? (size_t)a : sizeof o)) > 0) { dig(o, (size_t)r); nap(b); } note(p); }
		else if (!strcmp(w, "cat")) { static unsigned char o[70000]; ssize_t r; while ((r = get(0, o, sizeof o)) > 0) { dig(o, (size_t)r); put(1, o, (size_t)r); } }
		else if (!strcmp(w, "filter")) { sscanf(l, "%*s %ld %ld %ld %ld %ld %llu", &a, &k, &b, &c, &d, &s); filter((int)a, k, b, c, d, s); }
		else if (!strcmp(w, "digest")) note(p);
		else if (!strcmp(w, "sleep")) nap(atol(p));
		else if (!strcmp(w, "touch")) close(open(p, O_WRONLY | O_CREAT | O_CLOEXEC, 0644));
		else if (!strcmp(w, "ignore")) { for (i = 1; i < 32; i++) if (i != SIGALRM) signal(i, SIG_IGN); }
		else if (!strcmp(w, "forever")) for (;;) pause();
		else if (!strcmp(w, "waiteof")) { char o[1000]; while (get(0, o, sizeof o) > 0) ; }
		else if (!strcmp(w, "close")) close(atoi(p));
		else if (!strcmp(w, "sig")) { sigset_t m; i = atoi(p); signal(i, SIG_DFL); sigemptyset(&m); sigaddset(&m, i); sigprocmask(SIG_UNBLOCK, &m, NULL); kill(getpid(), i); for (;;) pause(); }
		else if (!strcmp(w, "pause")) { /* stopped for a while, and continued by somebody */
			pid_t me = getpid(), h = fork(); int st;
			if (h < 0) return 97;
			if (!h) { char sp[64], b[300]; int q; for (q = 3; q < 300; q++) close(q); close(0); close(1); close(2); snprintf(sp, sizeof sp, "/proc/%d/stat", (int)me); for (q = 0; q < 20000; q++) { int sf = open(sp, O_RDONLY); ssize_t r = sf < 0 ? -1 : read(sf, b, sizeof b - 1); char *z; if (sf >= 0) close(sf); if (r <= 0) _exit(0); b[r] = 0; z = strrchr(b, ')'); if (z && z[1] == ' ' && z[2] == 'T') break; usleep(300); } usleep(3000); kill(me, SIGCONT); _exit(0); }
			kill(me, SIGSTOP); while (waitpid(h, &st, 0) < 0 && errno == EINTR) ;
		}
		else if (!strcmp(w, "exit")) _exit(atoi(p));
		else return 96;
	}
	return 0;
}
