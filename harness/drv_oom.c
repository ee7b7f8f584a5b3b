/* C29: the n-th allocation fails */
#include "vh.h"
#include <sys/mman.h>
#include <ctype.h>
static int fac_nesting, armed, after; static pid_t armed_pid; static unsigned long fail_at;
#define ROOM 200000
static struct { unsigned long count, examined; uint64_t dig; int done, failed; size_t what[ROOM]; } *sh;   /* what: kind and size of every request */
static int fails(int kind, size_t size)
{
	unsigned long c;
	if (!armed || !fac_nesting || getpid() != armed_pid) return 0;
	c = ++sh->count;
	if (!fail_at && c < ROOM) sh->what[c] = size * 4 + (size_t)kind;
	if (fail_at && (c == fail_at || (after && c > fail_at))) { sh->failed++; errno = ENOMEM; return 1; }
	return 0;
}
#ifdef GLIBC_HOOKS
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), __libc_free(void *);
void *malloc(size_t n) { return fails(0, n) ? NULL : __libc_malloc(n); }
void *calloc(size_t m, size_t n) { return fails(1, m * n) ? NULL : __libc_calloc(m, n); }
void *realloc(void *p, size_t n) { return fails(2, n) ? NULL : __libc_realloc(p, n); }
#else
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); extern char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { return fails(0, n) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t m, size_t n) { return fails(1, m * n) ? NULL : __real_calloc(m, n); }
void *__wrap_realloc(void *p, size_t n) { return fails(2, n) ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return fails(3, strlen(s)) ? NULL : __real_strdup(s); }
#endif
#include "facil.h"
static void fac_enter(void) { fac_nesting++; }
static void fac_leave(void) { fac_nesting--; }
/* a history whose objects are examined when the process ends: by a function registered with
   atexit when the n-th allocation fails, or behind the last operation.  Every object has to be
   what the operations that came to an end made of it; the one cut short is wholly there or not
   at all (an addition of a set to another: element by element); counts of the object it was cut
   short on are not judged. */
#define XK 300
static struct {
	hsh_HashTable t; set_Set s[2]; lst_List l; stk_Stack k; sl_List sl; str_Pool p; mem_String ms; arg_List a; mem_Object o;
	unsigned char int_, ins[2][XK], insl[XK], inp[XK]; int datum[XK], li[9000], st[9000], nli, nst, args[9000], nargs; const char *iss[XK], *str[9000]; int strk[9000], nstr; unsigned char *ob[9000]; int nob;
	unsigned char intt[XK]; int op, key, where, done;
} X;
enum { X_NONE, X_TINS, X_TDEL, X_SINS, X_SDEL, X_SADD, X_SDELS, X_APP, X_PUSH, X_POP, X_TRUNC, X_SPUSH, X_SPOP, X_SLINS, X_SLDEL, X_INTERN, X_MSTR, X_ARG, X_OBJ, X_OTHER };
static const char *const X_NAME[] = { "nothing", "hsh_insert", "hsh_delete", "set_insert", "set_delete", "set_add", "set_del", "lst_append", "lst_push", "lst_pop", "lst_truncate", "stk_push", "stk_pop", "sl_insert", "sl_delete", "str_pool_find", "mem_strcpy", "arg_add", "mem_get_object", "something else" };
#define XFAIL(...) do { fprintf(stderr, "EXAMINED (%s cut short): ", X_NAME[X.op]); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); _exit(77); } while (0)
static unsigned char xseen[XK]; static int xcount, xpos;
static int xkey(const void *k) { long d = ((const char *)k - fac_key[0]) / (long)sizeof fac_key[0]; if (d < 0 || d >= XK || k != fac_key[d]) XFAIL("a walk presents a foreign key"); return (int)d; }
static int x_t(const void *k, const void *d) { int i = xkey(k); if (xseen[i]++) XFAIL("a walk over the table presents key %d twice", i); if (X.op != X_TINS && X.datum[i] != (int)(intptr_t)d) XFAIL("the datum of key %d is %d, not %d", i, (int)(intptr_t)d, X.datum[i]); xcount++; return 0; }
static int x_s(const void *k) { int i = xkey(k); if (xseen[i]++) XFAIL("a walk over a set presents key %d twice", i); xcount++; return 0; }
static int xlast; static char xlastk[100];
static int x_sl(const void *k) { int i = xkey(k); if (xseen[i]++) XFAIL("a walk over a skip list presents key %d twice", i); if (xcount && fac_cmp(xlastk, k) >= 0) XFAIL("a skip list is out of order"); snprintf(xlastk, sizeof xlastk, "%s", (const char *)k); xlast = i; xcount++; return 0; }
static int x_l(const void *k) { int i = xkey(k), off = X.op == X_POP && (int)lst_length(X.l) == X.nli - 1 ? 1 : X.op == X_PUSH && (int)lst_length(X.l) == X.nli + 1 ? -1 : 0; int at = xpos++ + off; if (at < 0 ? i != X.key : at < X.nli ? X.li[at] != i : i != X.key) XFAIL("element %d of a list is key %d", xpos, i); return 0; }
static void examine(void)
{
	int i, q; unsigned long n;
	if (getpid() != armed_pid || !X.where) return;
	armed = 0;
	if (!X.done) dprintf(2, "examined behind %s\n", X_NAME[X.op]);
	if (X.where > 1) { hsh_Stats h = NULL;
		for (i = 0, n = 0; i < XK; i++) { const void *d = hsh_retrieve(X.t, fac_key[i]); int in = d != NULL; n += (unsigned long)in; if (in != X.intt[i] && !(X.key == i && (X.op == X_TINS || X.op == X_TDEL))) XFAIL("key %d is %s the table", i, in ? "in" : "not in"); if (in && X.intt[i] && (int)(intptr_t)d != X.datum[i]) XFAIL("key %d has the datum %d, not %d", i, (int)(intptr_t)d, X.datum[i]); }
		memset(xseen, 0, sizeof xseen); xcount = 0; if (!hsh_readonly(X.t, 1)) hsh_readonly(X.t, 0); hsh_iterate(X.t, x_t);
		if ((unsigned long)xcount != n) XFAIL("a walk presents %d entries of a table, look-ups find %lu", xcount, n);
		h = hsh_get_stats(X.t); if (h->entries != n && X.op != X_TINS && X.op != X_TDEL) XFAIL("a table has %lu entries, its statistics say %lu", n, h->entries); xfree(h); }
	for (q = 0; q < 2; q++) if (X.where > 2 + q) { set_Stats s;
		for (i = 0, n = 0; i < XK; i++) { int in = set_member(X.s[q], fac_key[i]); n += (unsigned long)in; if (in != X.ins[q][i] && !(q == 0 && ((X.key == i && (X.op == X_SINS || X.op == X_SDEL)) || ((X.op == X_SADD || X.op == X_SDELS) && X.ins[1][i])))) XFAIL("key %d is %s set %d", i, in ? "in" : "not in", q); }
		memset(xseen, 0, sizeof xseen); xcount = 0; set_iterate(X.s[q], x_s);
		if ((unsigned long)xcount != n) XFAIL("a walk presents %d elements of a set, look-ups find %lu", xcount, n);
		if ((unsigned long)set_count(X.s[q]) != n && (q || X.op < X_SINS || X.op > X_SDELS)) XFAIL("a set of %lu elements counts %d", n, set_count(X.s[q]));
		s = set_get_stats(X.s[q]); if (s->entries != n && (q || X.op < X_SINS || X.op > X_SDELS)) XFAIL("a set has %lu elements, its statistics say %lu", n, s->entries); xfree(s); }
	if (X.where > 4) { int len = (int)lst_length(X.l); if (len != X.nli && !((X.op == X_APP || X.op == X_PUSH) && len == X.nli + 1) && !(X.op == X_POP && len == X.nli - 1) && X.op != X_TRUNC) XFAIL("a list of %d elements says %d", X.nli, len); xpos = 0; lst_iterate(X.l, x_l); if (xpos != len) XFAIL("a walk presents %d elements of a list of %d", xpos, len); if (len && xkey(lst_nth_get(X.l, len)) != xkey(lst_get_position(lst_last_position(X.l)))) XFAIL("the last element of a list is not the last"); }
	if (X.where > 5) { n = 0; if (X.op == X_SPUSH && X.nst < 8999 && stk_top(X.k) == fac_key[X.key] && !(X.nst && X.st[X.nst - 1] == X.key)) stk_pop(X.k); if (X.op == X_SPOP && X.nst > 0 && stk_top(X.k) != fac_key[X.st[X.nst - 1]]) X.nst--; while (X.nst > 0 && X.op != X_SPUSH) { if (stk_isempty(X.k) || stk_pop(X.k) != fac_key[X.st[--X.nst]]) XFAIL("element %d of a stack is wrong", X.nst); } if (X.op != X_SPUSH && X.op != X_SPOP && !stk_isempty(X.k)) XFAIL("a stack has too many elements"); }
	if (X.where > 6) { for (i = 0, n = 0; i < XK; i++) { const void *d = sl_find(X.sl, fac_key[i]); n += d != NULL; if (d && d != fac_key[i]) XFAIL("a skip list finds another datum for key %d", i); if ((d != NULL) != X.insl[i] && !(X.key == i && (X.op == X_SLINS || X.op == X_SLDEL))) XFAIL("key %d is %s a skip list", i, d ? "in" : "not in"); } memset(xseen, 0, sizeof xseen); xcount = 0; sl_iterate(X.sl, x_sl); if ((unsigned long)xcount != n) XFAIL("a walk presents %d data of a skip list, look-ups find %lu", xcount, n); }
	if (X.where > 7) { str_Stats s; for (i = 0, n = 0; i < XK; i++) { int in = str_pool_exists(X.p, fac_key[i]); n += (unsigned long)in; if (in != X.inp[i] && !(X.key == i && X.op == X_INTERN)) XFAIL("key %d is %s a pool", i, in ? "in" : "not in"); if (X.inp[i] && (strcmp(X.iss[i], fac_key[i]) || str_pool_find(X.p, fac_key[i]) != X.iss[i])) XFAIL("the string of key %d is another", i); } s = str_pool_get_stats(X.p); if ((unsigned long)s->count != n && X.op != X_INTERN) XFAIL("a pool of %lu strings counts %d", n, s->count); xfree(s); }
	if (X.where > 8) for (i = 0; i < X.nstr; i++) if (strcmp(X.str[i], fac_key[X.strk[i]])) XFAIL("string %d of a memory changed", i);
	if (X.where > 9) { int c = arg_count(X.a); if (c != X.nargs && !(X.op == X_ARG && c == X.nargs + 1)) XFAIL("a list of %d arguments counts %d", X.nargs, c); for (i = 0; i < X.nargs; i++) if (strcmp(arg_get(X.a, i), fac_key[X.args[i]])) XFAIL("argument %d changed", i); }
	if (X.where > 10) for (i = 0; i < X.nob; i++) if (X.ob[i]) { int j; for (j = 0; j < 24; j++) if (X.ob[i][j] != (unsigned char)(i + 1)) XFAIL("object %d changed", i); }
	sh->examined++;
}
static void x_ops(fac *f, int n)
{
	int i, j;
	memset(&X, 0, sizeof X); X.where = 1; if (atexit(examine)) _exit(20);
#define MAKE(e) do { X.op = X_OTHER; L(e); X.op = X_NONE; X.where++; } while (0)
	MAKE(X.t = hsh_create(NULL, NULL)); MAKE(X.s[0] = set_create(NULL, NULL)); MAKE(X.s[1] = set_create(NULL, NULL)); MAKE(X.l = lst_create()); MAKE(X.k = stk_create()); MAKE(X.sl = sl_create(fac_cmp, fac_id, NULL)); MAKE(X.p = str_pool_create()); MAKE(X.ms = mem_create_strings()); MAKE(X.a = arg_create()); MAKE(X.o = mem_create_objects(24));
#define DO(o, e) do { X.op = o; L(e); } while (0)
	for (i = 0; i < n; i++) {
		int r = 0; X.key = j = (int)fac_n(f, XK);
		switch (fac_n(f, 20)) {
		case 0: case 1: case 2: DO(X_TINS, r = hsh_insert(X.t, fac_key[j], fac_num(i + 1))); X.op = X_NONE; if (!!r != X.intt[j]) XFAIL("hsh_insert returns %d", r); if (!r) { X.intt[j] = 1; X.datum[j] = i + 1; } break;
		case 3: DO(X_TDEL, r = hsh_delete(X.t, fac_key[j])); X.intt[j] = 0; break;
		case 4: case 5: DO(X_SINS, r = set_insert(X.s[0], fac_key[j])); X.ins[0][j] = 1; break;
		case 6: X.op = X_OTHER; L(r = set_insert(X.s[1], fac_key[j])); X.ins[1][j] = 1; break;
		case 7: DO(X_SDEL, r = set_delete(X.s[0], fac_key[j])); X.ins[0][j] = 0; break;
		case 8: if (fac_n(f, 6)) break; if (fac_n(f, 3)) { DO(X_SADD, set_add(X.s[0], X.s[1])); for (j = 0; j < XK; j++) X.ins[0][j] |= X.ins[1][j]; } else { DO(X_SDELS, set_del(X.s[0], X.s[1])); for (j = 0; j < XK; j++) if (X.ins[1][j]) X.ins[0][j] = 0; } break;
		case 9: case 10: if (X.nli > 8000) break; DO(X_APP, lst_append(X.l, fac_key[j])); X.li[X.nli++] = j; break;
		case 11: if (X.nli > 8000) break; DO(X_PUSH, lst_push(X.l, fac_key[j])); memmove(X.li + 1, X.li, sizeof *X.li * (size_t)X.nli++); X.li[0] = j; break;
		case 12: if (!X.nli) break; DO(X_POP, lst_pop(X.l)); memmove(X.li, X.li + 1, sizeof *X.li * (size_t)--X.nli); break;
		case 13: if (X.nst > 8000) break; if (fac_n(f, 4) || !X.nst) { DO(X_SPUSH, stk_push(X.k, fac_key[j])); X.st[X.nst++] = j; } else { DO(X_SPOP, stk_pop(X.k)); X.nst--; } break;
		case 14: if (!X.insl[j]) { DO(X_SLINS, sl_insert(X.sl, fac_key[j])); X.insl[j] = 1; } else if (!fac_n(f, 3)) { DO(X_SLDEL, sl_delete(X.sl, fac_key[j])); X.insl[j] = 0; } break;
		case 15: case 16: { const char *s = NULL; DO(X_INTERN, s = str_pool_find(X.p, fac_key[j])); X.op = X_NONE; if (X.inp[j] && X.iss[j] != s) XFAIL("interning key %d again gives another string", j); X.iss[j] = s; X.inp[j] = 1; break; }
		case 17: if (X.nstr > 8000) break; DO(X_MSTR, X.str[X.nstr] = mem_strcpy(X.ms, fac_key[j])); X.strk[X.nstr++] = j; break;
		case 18: if (X.nargs > 8000) break; DO(X_ARG, arg_add(X.a, fac_key[j])); X.args[X.nargs++] = j; break;
		default: if (X.nob > 8000) break; if (fac_n(f, 3) || !X.nob) { unsigned char *p = NULL; DO(X_OBJ, p = mem_get_object(X.o)); memset(p, X.nob + 1, 24); X.ob[X.nob++] = p; } else { int v = (int)fac_n(f, X.nob); if (X.ob[v]) { DO(X_OTHER, mem_free_object(X.o, X.ob[v])); X.ob[v] = NULL; } } break;
		}
		X.op = X_NONE;
	}
	X.done = 1; examine();
	L(hsh_destroy(X.t)); L(set_destroy(X.s[0])); L(set_destroy(X.s[1])); L(lst_destroy(X.l)); L(stk_destroy(X.k)); L(sl_destroy(X.sl)); L(str_pool_destroy(X.p)); L(mem_destroy_strings(X.ms)); L(arg_destroy(X.a)); L(mem_destroy_objects(X.o));
	X.where = 0;
}
static int examining; static uint64_t xseed; static int xn;
static int nw, w[6], n[6], inited, shut, open_log; static uint64_t sd[6];
static void body(void *arg)
{
	int i; uint64_t d = 1; fac_ys = sd[0]; (void)arg;
	snprintf(fac_dir, sizeof fac_dir, "%s/c", vh_scratch);
	armed = 1; armed_pid = getpid();
	if (inited) L(maa_init("prog"));
	if (open_log) { char b[2100]; snprintf(b, sizeof b, "%s/own%d.log", vh_scratch, (int)getpid()); L(log_file("ident", b)); unlink(b); busy_log = 1; }
	if (examining) { fac f = { xseed, 0, 0 }; x_ops(&f, xn); }
	else for (i = 0; i < nw; i++) d = vh_mix(d, fac_run_at(w[i], sd[i], n[i], 0));
	if (open_log) L(log_file(NULL, NULL));
	if (shut) { if (!inited) { L(maa_init("prog")); } L(maa_shutdown()); }
	armed = 0;
	sh->dig = d; sh->done = 1;
}
static void run(vh_result *r, unsigned long at, int from) { sh->count = 0; sh->dig = 0; sh->done = 0; sh->failed = 0; fail_at = at; after = from; vh_child(r, body, NULL); }
static int has(const char *t, const char *w) { size_t k = strlen(w); for (; *t; t++) if (!strncasecmp(t, w, k)) return 1; return 0; }
static const char *how(const vh_result *r) { static char b[80]; if (r->timed_out) return "did not end"; if (WIFSIGNALED(r->status)) sprintf(b, "was ended by signal %d", WTERMSIG(r->status)); else sprintf(b, "ended with status %d", WEXITSTATUS(r->status)); return b; }
static void direct(void *a)
{
	static void *volatile p; size_t big = (size_t)PTRDIFF_MAX - 4096;
	switch (*(int *)a) {
	case 0: p = xmalloc(big); break; case 1: p = xcalloc(big / 2, 5); break; case 2: p = xmalloc(10); p = xrealloc(p, big); break; case 3: xfree(NULL); break;
	case 4: p = xcalloc(SIZE_MAX / 4, 8); break; case 5: p = xcalloc(1UL << 33, 1UL << 33); break; case 6: p = xrealloc(NULL, big); break;
	case 7: armed = 1; armed_pid = getpid(); fail_at = 1; after = 1; sh->count = 0; fac_nesting = 1; p = xstrdup("some text"); break;
	case 8: armed = 1; armed_pid = getpid(); fail_at = 1; after = 1; sh->count = 0; fac_nesting = 1; p = xmalloc(1); break;
	case 9: armed = 1; armed_pid = getpid(); fail_at = 1; after = 1; sh->count = 0; fac_nesting = 1; p = xcalloc(1, 1); break;
	case 10: p = xmalloc(1); armed = 1; armed_pid = getpid(); fail_at = 1; after = 1; sh->count = 0; fac_nesting = 1; p = xrealloc(p, 2); break;
	default: err_set_program_name("name"); xfree(NULL); }
}
void vh_setup(int argc, char **argv)
{
	(void)argc; (void)argv; fac_setup(); fac_keys(); vh_child_wall = 30; fac_no_redirect = 1;
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
/* the positions whose kind and size is rarest in the history: growth of tables, buffers and the like */
static unsigned long *rare_at; static unsigned rare_n;
static int by_what(const void *a, const void *b) { unsigned long x = *(const unsigned long *)a, y = *(const unsigned long *)b; if (sh->what[x] != sh->what[y]) return sh->what[x] < sh->what[y] ? -1 : 1; return x < y ? -1 : x > y; }
typedef struct { unsigned long at, n; size_t key; } kind_of;
static int by_n(const void *a, const void *b) { const kind_of *x = a, *y = b; return x->n < y->n ? -1 : x->n > y->n ? 1 : x->key < y->key ? -1 : x->key > y->key; }
static void find_rare(unsigned long N)
{
	unsigned long i, j, *v; kind_of *k; unsigned nk = 0;
	if (N >= ROOM) N = ROOM - 1;
	v = malloc(sizeof *v * N); k = malloc(sizeof *k * N);
	for (i = 0; i < N; i++) v[i] = i + 1;
	qsort(v, N, sizeof *v, by_what);
	for (i = 0; i < N; i = j) { for (j = i; j < N && sh->what[v[j]] == sh->what[v[i]]; j++) ; k[nk].at = v[vh_chance(50) ? i : j - 1]; k[nk].n = j - i; k[nk++].key = vh_mix(vh_case_index, sh->what[v[i]]); }
	qsort(k, nk, sizeof *k, by_n);
	free(rare_at); rare_at = malloc(sizeof *rare_at * nk); rare_n = nk; for (i = 0; i < nk; i++) rare_at[i] = k[i].at;
	free(v); free(k); vh_max("kinds of requests in one history", nk);
}
void vh_case(uint64_t index)
{
	int i, cap = vh_thorough ? 400 : 40; unsigned long N, at; vh_result r; uint64_t ref; char tr[400]; size_t k = 0;
	if (index % 8 == 0) {
		for (i = 0; i < 12; i++) {
			vh_child(&r, direct, &i);
			vh_op("direct request %d", i);
			VH_CHECK(!r.timed_out && WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1 && !vh_is_sanitizer(&r), "direct-not-fatal", "direct request %d %s: %s", i, how(&r), r.err);
			VH_CHECK((i == 3 || i == 11) ? has(r.err, "null") && has(r.err, "xfree") : has(r.err, "memory"), "direct-not-diagnosed", "direct request %d: the report is \"%s\"", i, r.err);
			vh_result_free(&r); vh_count("direct requests", 1);
		}
	}
	examining = vh_chance(20); xseed = vh_u64(); xn = vh_chance(40) ? (int)vh_range(500, 4000) : (int)vh_range(0, 400);
	nw = vh_chance(70) ? 1 : (int)vh_range(2, 5); inited = vh_chance(50); shut = vh_chance(50); open_log = vh_chance(8);
	for (i = 0; i < nw; i++) {
		if (nw == 1) w[i] = (int)(index % FAC_N); else w[i] = (int)vh_below(FAC_N);
		sd[i] = vh_u64(); n[i] = nw == 1 && vh_chance(12) ? (int)vh_range(2000, 6000) : vh_chance(10) ? (int)vh_range(100, 900) : (int)vh_range(0, 50);
		if (nw == 1 && (w[i] == FAC_PR)) n[i] = 2;
		k += snprintf(tr + k, sizeof tr - k, "%s/%d ", fac_tab[w[i]].name, n[i]); vh_digest(w[i] * 1000 + n[i]);
	}
	fac_nest_percent = vh_chance(20) ? 10 : 0; if (examining) snprintf(tr, sizeof tr, "examined/%d ", xn);
	vh_op("%s%s%s", inited ? "init " : "", tr, shut ? "shutdown" : "");
	run(&r, 0, 0);
	if (r.timed_out || r.status || !sh->done) { if (vh_is_sanitizer(&r)) dprintf(2, "%s", r.err); vh_fail("fails-without-fault", "%s %s without any fault injected: %.1500s", tr, how(&r), r.err); }
	vh_result_free(&r);
	N = sh->count; ref = sh->dig;
	if (!N) return;
	sh->examined = 0;
	find_rare(N);
	vh_count("allocation positions found", N); vh_max("positions in one history", N);
	for (i = 0; i < (N <= (unsigned long)cap ? (int)N : cap); i++) {
		int from = (int)vh_below(2), both;
		at = N <= (unsigned long)cap ? (unsigned long)i + 1 : i < cap / 8 ? (unsigned long)i + 1 : i < cap / 4 ? N - (unsigned long)(i - cap / 8) : i < cap - cap / 8 && (unsigned)(i - cap / 4) < rare_n ? rare_at[i - cap / 4] : 1 + vh_below(N);
		for (both = 0; both < 2; both++, from = !from) {
			vh_op("fail %s %lu of %lu", from ? "from" : "only", at, N);
			run(&r, at, from);
			vh_count(from ? "runs with all allocations failing from a position" : "runs with one allocation failing", 1);
			if (!sh->failed) { if (r.status || !sh->done || sh->dig != ref) vh_fail("unstable", "%s: run without reaching the fault %s (digest %s): %.500s", tr, how(&r), sh->dig == ref ? "same" : "differs", r.err); vh_count("fault not reached", 1); vh_result_free(&r); continue; }
			if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 77) vh_fail("objects-inconsistent", "%s, allocation %lu of %lu (%s): %.1500s", tr, at, N, from ? "and all behind" : "only", r.err);
			if (vh_is_sanitizer(&r)) { char *e = r.err; dprintf(2, "%s", e); vh_fail("sanitizer-after-failed-allocation", "%s, allocation %lu of %lu (%s): %.1500s", tr, at, N, from ? "and all behind" : "only", e); }
			if (!r.timed_out && WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0) {
				VH_CHECK(sh->done && sh->dig == ref, "wrong-after-failed-allocation", "%s, allocation %lu of %lu (%s): the process went on with a wrong result", tr, at, N, from ? "and all behind" : "only");
				vh_count("failures survived", 1);
			} else {
				VH_CHECK(!r.timed_out && WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1, "bad-end", "%s, allocation %lu of %lu (%s): the process %s: %.800s", tr, at, N, from ? "and all behind" : "only", how(&r), r.err);
				VH_CHECK(has(r.err, "memory"), "not-diagnosed", "%s, allocation %lu of %lu (%s): status 1 without a report of memory running out: \"%.800s\"", tr, at, N, from ? "and all behind" : "only", r.err);
				vh_count("diagnosed fatal errors", 1);
			}
			if (sh->failed) vh_count(fac_tab[w[0]].name, 1);
			vh_result_free(&r);
		}
	}
	vh_count("histories whose objects were examined at the end", sh->examined);
	vh_nontrivial(); if (nw > 1) vh_sample("%s%s%s: %lu allocation positions", inited ? "init " : "", tr, shut ? "shutdown" : "", N);
}
