#define _GNU_SOURCE
#include "vh.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#endif
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#endif
#endif
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <dirent.h>
#include <time.h>
#undef malloc
#undef free

const char *vh_property = "?";
const char *vh_tier = "quick";
int         vh_thorough;
uint64_t    vh_seed = 1;
const char *vh_scratch = "/nonexistent";
uint64_t    vh_case_index;
int         vh_child_wall = 60;

/* with --opt debug: the library's own debugging is on all the time (random part of it per case) */
extern void dbg_set_flag(unsigned long) __attribute__((weak));
extern void dbg_unset_flag(unsigned long) __attribute__((weak));
extern void log_stream(const char *, FILE *) __attribute__((weak));
static int dbg_open; static uint64_t dbg_bytes;
/* a log that leaves errno spoiled after every record */
static ssize_t dbg_write(void *c, const char *b, size_t n) { (void)c; (void)b; dbg_bytes += n; errno = EXDEV; return (ssize_t)n; }
static int dbg_all; static unsigned long dbg_now;
/* with --opt leak: memory nothing refers to any more is looked for after every case */
extern int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
extern void __lsan_disable(void) __attribute__((weak)), __lsan_enable(void) __attribute__((weak));
static int leak_all;
static void debugging(void)
{
	int b;
	if (!dbg_all || !dbg_set_flag) return;
	for (b = 24; b < 30; b++) if (dbg_now & 1UL << b) dbg_set_flag((3UL << 30) | 1UL << b);
}

static uint64_t rs[4];
static uint64_t splitmix(uint64_t *x)
{
	uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t vh_u64(void)
{
	uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
	rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3];
	rs[2] ^= t; rs[3] = rotl(rs[3], 45);
	return r;
}
uint64_t vh_below(uint64_t n) { return n ? vh_u64() % n : 0; }
int64_t vh_range(int64_t lo, int64_t hi) { return lo + (int64_t)vh_below((uint64_t)(hi - lo) + 1); }
int vh_chance(int percent) { return (int)vh_below(100) < percent; }
uint64_t vh_mix(uint64_t a, uint64_t b) { uint64_t x = a ^ rotl(b, 23) ^ 0x1234567; x += b * 0x9e3779b97f4a7c15ULL; return splitmix(&x); }
uint64_t vh_hash_bytes(const void *p, size_t n)
{
	const unsigned char *s = p; uint64_t h = 1469598103934665603ULL;
	while (n--) { h ^= *s++; h *= 1099511628211ULL; }
	return h;
}
static void seed_case(uint64_t idx)
{
	uint64_t x = vh_mix(vh_mix(vh_seed, vh_hash_bytes(vh_property, strlen(vh_property))), idx);
	for (int i = 0; i < 4; i++) rs[i] = splitmix(&x);
}

/* ---- shared progress/trace file, readable after any kind of death ---- */
#define TRACE_MAX (1 << 18)
struct progress { uint64_t case_index; uint64_t tracelen; uint64_t phase; char trace[TRACE_MAX]; };
static struct progress *pg;
static pid_t main_pid;

void vh_op(const char *fmt, ...)
{
	va_list ap; int n;
	char *p; size_t room;
	if (dbg_all && getpid() == main_pid) debugging();
	if (!pg || getpid() != main_pid) return;
	if (pg->tracelen + 512 >= TRACE_MAX) {   /* keep the last half */
		uint64_t keep = TRACE_MAX / 2;
		memmove(pg->trace, pg->trace + pg->tracelen - keep, keep);
		pg->tracelen = keep;
	}
	p = pg->trace + pg->tracelen; room = TRACE_MAX - pg->tracelen - 2;
	if (room > 500) room = 500;
	va_start(ap, fmt); n = vsnprintf(p, room, fmt, ap); va_end(ap);
	if (n < 0) return;
	if ((size_t)n >= room) n = (int)room - 1;
	p[n] = '\n';
	pg->tracelen += n + 1;
}

/* ---- events ---- */
#define MAXEV 128
static struct { const char *name; uint64_t n; int is_max; } ev[MAXEV];
static int nev;
static int evfind(const char *e)
{
	int i;
	for (i = 0; i < nev; i++) if (ev[i].name == e) return i;
	for (i = 0; i < nev; i++) if (!strcmp(ev[i].name, e)) return i;
	if (nev == MAXEV) { fprintf(stderr, "vh: too many events\n"); _exit(20); }
	ev[nev].name = e; ev[nev].n = 0;
	return nev++;
}
void vh_count(const char *e, uint64_t n) { ev[evfind(e)].n += n; }
void vh_max(const char *e, uint64_t n) { int i = evfind(e); ev[i].is_max = 1; if (n > ev[i].n) ev[i].n = n; }

static uint64_t digest; static int nontriv;
void vh_digest(uint64_t v) { digest = vh_mix(digest, v); }
void vh_nontrivial(void) { nontriv = 1; }
static char *samples[8]; static int nsamples;
void vh_sample(const char *fmt, ...)
{
	va_list ap; char buf[1200];
	if (nsamples >= 3) return;
	va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	samples[nsamples++] = strdup(buf);
}

static const char *outpath;
static void jstr(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static void verdict_file(const char *kind, const char *key, const char *msg)
{
	char p[4096]; FILE *f;
	snprintf(p, sizeof p, "%s.verdict", outpath ? outpath : "/dev/null");
	if (!(f = fopen(p, "w"))) return;
	fprintf(f, "{\"kind\":"); jstr(f, kind);
	fprintf(f, ",\"key\":"); jstr(f, key);
	fprintf(f, ",\"case\":%llu,\"msg\":", (unsigned long long)vh_case_index); jstr(f, msg);
	fprintf(f, "}\n"); fclose(f);
}
void vh_fail(const char *key, const char *fmt, ...)
{
	va_list ap; char buf[6000];
	va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	verdict_file("violation", key, buf);
	fflush(NULL);
	dprintf(2, "VH-VIOLATION %s case %llu: %s\n", key, (unsigned long long)vh_case_index, buf);
	_exit(10);
}
void vh_inconclusive(const char *fmt, ...)
{
	va_list ap; char buf[6000];
	va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	verdict_file("inconclusive", "inconclusive", buf);
	dprintf(2, "VH-INCONCLUSIVE case %llu: %s\n", (unsigned long long)vh_case_index, buf);
	_exit(11);
}

/* ---- watchdogs ---- */
static int cpu_limit = 30, wall_limit = 150;
static void on_prof(int s) { (void)s; static const char m[] = "VH-HANG cpu\n"; (void)!write(2, m, sizeof m - 1); _exit(12); }
static void on_alrm(int s) { (void)s; static const char m[] = "VH-HANG wall\n"; (void)!write(2, m, sizeof m - 1); _exit(13); }
static void arm(int cpu, int wall)
{
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &it, NULL);
	alarm(wall);
}

/* ---- children ---- */
static char *slurp_fd(int fd, size_t *len)
{
	struct stat st; char *b; size_t got = 0; ssize_t n;
	fstat(fd, &st);
	b = malloc(st.st_size + 1);
	while (got < (size_t)st.st_size && (n = pread(fd, b + got, st.st_size - got, got)) > 0) got += n;
	b[got] = 0; *len = got;
	return b;
}
static void child_common(vh_result *r, void (*fn)(void *), void *arg, int doexit)
{
	int fo = memfd_create("out", MFD_CLOEXEC), fe = memfd_create("err", MFD_CLOEXEC);
	pid_t pid; int waited = 0; struct timespec ts = {0, 200000};
	if (fo < 0 || fe < 0) { perror("memfd_create"); _exit(20); }
	fflush(NULL);
	memset(r, 0, sizeof *r);
	extern pid_t vh_real_fork(void);
	extern pid_t vh_real_waitpid(pid_t, int *, int);
	extern int vh_real_kill(pid_t, int);
	if ((pid = vh_real_fork()) < 0) { perror("fork"); _exit(20); }
	if (!pid) {
		struct rlimit rl = {0, 0};
		struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, NULL); alarm(0);
		setrlimit(RLIMIT_CORE, &rl);
		signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL);
		it.it_value.tv_sec = vh_child_wall; setitimer(ITIMER_PROF, &it, NULL);
		setpgid(0, 0);
		dup2(fo, 1); dup2(fe, 2);
		/* offsets are shared with the parent's descriptor only */
		fn(arg);
		if (doexit) exit(0);
		_exit(0);
	}
	{
		struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
		for (;;) {
			pid_t w = vh_real_waitpid(pid, &r->status, WNOHANG);
			if (w == pid) break;
			if (w < 0 && errno != EINTR) { perror("waitpid"); _exit(20); }
			clock_gettime(CLOCK_MONOTONIC, &t1);
			if (t1.tv_sec - t0.tv_sec > vh_child_wall) { vh_real_kill(-pid, SIGKILL); vh_real_kill(pid, SIGKILL); r->timed_out = 1; vh_real_waitpid(pid, &r->status, 0); break; }
			nanosleep(&ts, NULL);
			if (ts.tv_nsec < 5000000) ts.tv_nsec += ts.tv_nsec / 8;
			waited++;
		}
	}
	if (!r->timed_out && WIFSIGNALED(r->status) && WTERMSIG(r->status) == SIGPROF) r->timed_out = 1;
	r->out = slurp_fd(fo, &r->outlen); r->err = slurp_fd(fe, &r->errlen);
	close(fo); close(fe);
}
void vh_child(vh_result *r, void (*fn)(void *), void *arg) { child_common(r, fn, arg, 0); }
void vh_child_exit(vh_result *r, void (*fn)(void *), void *arg) { child_common(r, fn, arg, 1); }
void vh_result_free(vh_result *r) { free(r->out); free(r->err); r->out = r->err = NULL; }
int vh_is_sanitizer(const vh_result *r)
{
	return (WIFEXITED(r->status) && WEXITSTATUS(r->status) == VH_SAN_EXIT)
		|| (r->err && ((strstr(r->err, "Sanitizer") && !strstr(r->err, "Sanitizer failed to allocate")) || strstr(r->err, "runtime error:")));
}

/* ---- helpers ---- */
char *vh_read_file(const char *path, size_t *len)
{
	int fd = open(path, O_RDONLY | O_CLOEXEC); char *b; size_t l;
	if (fd < 0) { if (len) *len = 0; return NULL; }
	b = slurp_fd(fd, &l); close(fd);
	if (len) *len = l;
	return b;
}
char *vh_path(const char *fmt, ...)
{
	static char ring[8][4096]; static int k;
	char *p = ring[k++ & 7]; va_list ap; int n = snprintf(p, 2048, "%s/", vh_scratch);
	va_start(ap, fmt); vsnprintf(p + n, 2048, fmt, ap); va_end(ap);
	return p;
}
int vh_count_fds(void)
{
	DIR *d = opendir("/proc/self/fd"); int n = 0; struct dirent *e;
	if (!d) return -1;
	while ((e = readdir(d))) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n - 1;
}
char *vh_quote(const char *s, size_t n)
{
	static char ring[8][700]; static int k; char *b = ring[k++ & 7], *p = b; size_t i;
	for (i = 0; i < n && p < b + 680; i++) {
		unsigned char c = s[i];
		if (c == '\\' || c < 32 || c > 126) p += sprintf(p, "\\x%02x", c);
		else *p++ = c;
	}
	if (i < n) p += sprintf(p, "...");
	*p = 0;
	return b;
}
/* One buffer used again and again with different contents: whoever remembers answers by the
   address of what was passed gives wrong ones.  Red zones are kept by hand. */
#define SAME 262144
static char same_buf[SAME + 96] __attribute__((aligned(16))), *same_at = same_buf + 32; static int same_taken;
static void same_guard(size_t n)
{
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
	__asan_poison_memory_region(same_buf, sizeof same_buf);
	__asan_unpoison_memory_region(same_at, n);
#endif
#if __has_feature(memory_sanitizer)
	__msan_poison(same_at + n, SAME - n);
#endif
#endif
	(void)n;
}
char *vh_same_aligned(const void *p, size_t n)
{
	if (n > SAME) return NULL;
	same_at = same_buf + 32;
	same_guard(SAME); memcpy(same_at, p, n); same_guard(n); vh_count("arguments in a buffer used before", 1);
	return same_at;
}
char *vh_same(const void *p, size_t n)   /* at any alignment */
{
	if (n > SAME) return NULL;
	same_at = same_buf + 32 + (vh_chance(40) ? 0 : vh_below(16));
	same_guard(SAME); memcpy(same_at, p, n); same_guard(n); vh_count("arguments in a buffer used before", 1);
	return same_at;
}
char *vh_arg(const void *p, size_t n)
{
	if (same_taken || n > SAME || !vh_chance(40)) return vh_exact(p, n);
	same_taken = 1; return vh_same(p, n);
}
void vh_unarg(char *b) { if (b < same_buf || b >= same_buf + sizeof same_buf) { free(b); return; } same_taken = 0; same_guard(SAME); memset(same_at, 0x5a, 64); same_guard(0); }
char *vh_exact(const void *p, size_t n) { char *b = malloc(n ? n : 1); if (n) memcpy(b, p, n); return b; }

int main(int argc, char **argv)
{
	uint64_t from = 0, to = 1, step = 1, idx; const char *prog = NULL; int i;
	uint64_t *digs; uint64_t ndigs = 0, cases = 0, nontriv_cases = 0; FILE *f;
	for (i = 1; i + 1 < argc; i += 2) {
		const char *a = argv[i], *v = argv[i + 1];
		if (!strcmp(a, "--seed")) vh_seed = strtoull(v, 0, 0);
		else if (!strcmp(a, "--prop")) vh_property = v;
		else if (!strcmp(a, "--tier")) vh_tier = v;
		else if (!strcmp(a, "--from")) from = strtoull(v, 0, 0);
		else if (!strcmp(a, "--to")) to = strtoull(v, 0, 0);
		else if (!strcmp(a, "--step")) step = strtoull(v, 0, 0);
		else if (!strcmp(a, "--out")) outpath = v;
		else if (!strcmp(a, "--progress")) prog = v;
		else if (!strcmp(a, "--scratch")) vh_scratch = v;
		else if (!strcmp(a, "--cpu")) cpu_limit = atoi(v);
		else if (!strcmp(a, "--wall")) wall_limit = atoi(v);
		else if (!strcmp(a, "--opt")) { if (!strcmp(v, "debug")) dbg_all = 1; if (!strcmp(v, "leak")) leak_all = 1; }
		else { fprintf(stderr, "vh: bad option %s\n", a); return 20; }
	}
	vh_thorough = !strcmp(vh_tier, "thorough");
	main_pid = getpid();
	if (prog) {
		int fd = open(prog, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
		if (fd < 0 || ftruncate(fd, sizeof *pg) < 0) { perror(prog); return 20; }
		pg = mmap(NULL, sizeof *pg, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (pg == MAP_FAILED) { perror("mmap"); return 20; }
		close(fd);
	}
	{ struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); }
	signal(SIGPROF, on_prof); signal(SIGALRM, on_alrm);
	digs = malloc(sizeof *digs * ((to > from ? (to - from) / step : 0) + 2));
	vh_case_index = from; seed_case(~0ULL);
	arm(cpu_limit, wall_limit);
	if (leak_all && __lsan_disable) __lsan_disable();
	vh_setup(argc, argv);
	if (leak_all && __lsan_enable) __lsan_enable();
	for (idx = from; idx < to; idx += step) {
		vh_case_index = idx;
		if (pg) { pg->case_index = idx; pg->tracelen = 0; }
		digest = 0; nontriv = 0;
		seed_case(idx);
		arm(cpu_limit, wall_limit);
		if (dbg_all && dbg_set_flag && dbg_unset_flag && log_stream) {
			for (i = 24; i < 30; i++) dbg_unset_flag((3UL << 30) | 1UL << i);
			dbg_now = vh_chance(50) ? ~0UL : vh_u64();
			if (!dbg_open) { cookie_io_functions_t io = { NULL, dbg_write, NULL, NULL }; log_stream("dbg", fopencookie(NULL, "w", io)); dbg_open = 1; }
			debugging(); vh_count("executions with the library's own debugging on", 1);
		}
		vh_case(idx);
		if (leak_all && __lsan_do_recoverable_leak_check) { if (__lsan_do_recoverable_leak_check()) _exit(VH_SAN_EXIT); vh_count("searches for lost memory", 1); }
		if (dbg_open) { vh_count("bytes of debugging records", dbg_bytes); dbg_bytes = 0; }
		cases++;
		if (nontriv) { nontriv_cases++; digs[ndigs++] = digest; }
	}
	arm(0, 0);
	if (outpath) {
		char p[4096];
		if (!(f = fopen(outpath, "w"))) { perror(outpath); return 20; }
		fprintf(f, "{\"cases\":%llu,\"nontrivial\":%llu,\"events\":{", (unsigned long long)cases, (unsigned long long)nontriv_cases);
		for (i = 0; i < nev; i++) { if (i) fputc(',', f); jstr(f, ev[i].name); fprintf(f, ":%llu", (unsigned long long)ev[i].n); }
		fprintf(f, "},\"max\":["); { int c = 0; for (i = 0; i < nev; i++) if (ev[i].is_max) { if (c++) fputc(',', f); jstr(f, ev[i].name); } }
		fprintf(f, "],\"samples\":[");
		for (i = 0; i < nsamples; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
		fprintf(f, "]}\n"); fclose(f);
		snprintf(p, sizeof p, "%s.dig", outpath);
		if (!(f = fopen(p, "w"))) { perror(p); return 20; }
		fwrite(digs, sizeof *digs, ndigs, f); fclose(f);
	}
	return 0;
}
