/* C10: string memories (-DARGS=0) and C12: argument lists (-DARGS=1) */
#include "vh.h"
#include "acct.h"
#ifndef ARGS
#define ARGS 0
#endif
typedef struct { const char *p; char *s; unsigned n; } item;
typedef struct { void *h; item *a; unsigned n, cap; long bytes; } obj;
static obj O[4]; static int nO; static long copies_total;
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; acct_init(); }
static int tagof(obj *o) { return 1 + (int)(o - O); }
static void make(obj *o) { memset(o, 0, sizeof *o); ACCT(tagof(o), o->h = ARGS ? arg_create() : mem_create_strings()); VH_CHECK(o->h != NULL, "create-null", "create gives NULL"); }
static void compare(const char *what, const char *p, const char *s, unsigned n, unsigned k)
{
	if (!p) vh_fail("null-string", "%s %u is NULL, should be \"%s\"", what, k, vh_quote(s, n));
	if (memcmp(p, s, n) || p[n]) vh_fail("content-wrong", "%s %u is \"%s\", should be \"%s\" (%u bytes)", what, k, vh_quote(p, n + 1), vh_quote(s, n), n);
	vh_count("strings compared", 1);
}
static void verify(obj *o)
{
	unsigned i;
#if ARGS
	int c = arg_count(o->h), ac = -7; char **av = NULL;
	VH_CHECK(c == (int)o->n, "count-wrong", "list %d has count %d, should be %u", tagof(o), c, o->n);
	arg_get_vector(o->h, &ac, &av);
	VH_CHECK(ac == (int)o->n && av, "vector-count", "list %d: vector count %d, should be %u", tagof(o), ac, o->n);
	for (i = 0; i < o->n; i++) { const char *p = arg_get(o->h, (int)i); compare("item", p, o->a[i].s, o->a[i].n, i); compare("vector entry", av[i], o->a[i].s, o->a[i].n, i); }
	VH_CHECK(av[o->n] == NULL, "vector-end", "list %d: entry behind the last of %u is %p", tagof(o), o->n, av[o->n]);
	vh_count("vectors read", 1);
#else
	for (i = 0; i < o->n; i++) compare("string", o->a[i].p, o->a[i].s, o->a[i].n, i);
	vh_count("complete comparisons", 1);
#endif
}
#if !ARGS
typedef struct { const char *p; unsigned n; } rng;
static int cmp_rng(const void *a, const void *b) { const rng *x = a, *y = b; return x->p < y->p ? -1 : x->p > y->p; }
static void disjoint(void)
{
	unsigned n = 0, k = 0, i; int q; rng *r;
	for (q = 0; q < nO; q++) n += O[q].n;
	r = malloc((n + 1) * sizeof *r);
	for (q = 0; q < nO; q++) for (i = 0; i < O[q].n; i++) { r[k].p = O[q].a[i].p; r[k++].n = O[q].a[i].n + 1; }
	qsort(r, k, sizeof *r, cmp_rng);
	for (i = 1; i < k; i++) VH_CHECK(r[i].p >= r[i - 1].p + r[i - 1].n, "strings-overlap", "two stored strings overlap at %p", r[i].p);
	free(r); vh_count("address maps checked", 1);
}
#endif
static void stats(obj *o)
{
#if !ARGS
	mem_StringStats s = mem_get_string_stats(o->h); char *t = NULL, *nl; size_t tn; FILE *f; int c = -1, b = -1;
	VH_CHECK(s->count == (int)o->n, "stats-count", "object %d: count %d, stored %u", tagof(o), s->count, o->n);
	VH_CHECK(s->bytes == o->bytes, "stats-bytes", "object %d: bytes %d, stored %ld", tagof(o), s->bytes, o->bytes);
	f = open_memstream(&t, &tn); mem_print_string_stats(o->h, f); fclose(f); nl = strchr(t, '\n');
	VH_CHECK(nl && sscanf(nl + 1, " %d strings, using %d bytes", &c, &b) == 2 && c == s->count && b == s->bytes, "printed-stats", "printed \"%s\", reported %d %d", t, s->count, s->bytes);
	free(t); xfree(s); vh_count("statistics read", 1);
#else
	(void)o;
#endif
}
static void kill_obj(obj *o)
{
	long others[256]; int q, t = tagof(o); unsigned i;
	verify(o);
	memcpy(others, acct_live, sizeof others);
	vh_op("destroy %d with %u strings", t, o->n);
	ACCT(100, ARGS ? arg_destroy(o->h) : mem_destroy_strings(o->h));
	VH_CHECK(acct_live[t] == 0, "storage-kept", "object %d: %ld of its blocks are still allocated after it was destroyed (%u strings)", t, acct_live[t], o->n);
	for (q = 0; q < nO; q++) if (1 + q != t) VH_CHECK(acct_live[1 + q] == others[1 + q], "foreign-storage", "destroying object %d changed the storage of object %d: %ld blocks, before %ld", t, 1 + q, acct_live[1 + q], others[1 + q]);
	for (i = 0; i < o->n; i++) free(o->a[i].s);
	free(o->a); o->a = NULL; o->n = 0; vh_count("destructions", 1);
}
static unsigned gen(char **out, int nulok)
{
	static const char cls[] = "a \"'\\\t%s\n"; unsigned n, i; char *b; int style = (int)vh_below(4);
	n = vh_chance(8) ? 0 : vh_below(3000) == 0 ? 20000 + (unsigned)vh_below(180000) : vh_chance(3) ? 1000 + (unsigned)vh_below(vh_thorough ? 200000 : 20000) : (unsigned)vh_below(vh_chance(70) ? 20 : 200);
	b = malloc(n + 1);
	for (i = 0; i < n; i++) { b[i] = style == 0 ? (char)vh_u64() : style == 1 ? 'a' + (int)vh_below(3) : style == 2 ? cls[vh_below(sizeof cls - 1)] : (char)(200 + vh_below(56)); if (!b[i] && !nulok) b[i] = '.'; }
	if (nulok && n && vh_chance(20)) b[vh_below(n)] = 0;
	b[n] = 0; *out = b;
	return n;
}
static void store(obj *o, char *s, unsigned n, const char *p)
{
	if (o->n == o->cap) { o->cap = o->cap * 2 + 16; o->a = realloc(o->a, o->cap * sizeof *o->a); }
	compare("string just stored", p, s, n, o->n);
	o->a[o->n].p = p; o->a[o->n].s = s; o->a[o->n].n = n; o->n++; o->bytes += n + 1; copies_total++;
}
static const char *last(obj *o, void *r)
{
#if ARGS
	VH_CHECK(r == o->h, "result-handle", "the operation returned %p instead of the list %p", r, o->h);
	return arg_get(o->h, (int)o->n);
#else
	(void)o; return r;
#endif
}
static void op_whole(obj *o)
{
	char *s; unsigned n = gen(&s, 0); char *b = vh_arg(s, n + 1); void *r;
	ACCT(tagof(o), r = ARGS ? (void *)arg_add(o->h, b) : (void *)(uintptr_t)mem_strcpy(o->h, b));
	vh_op("%d: store \"%s\"", tagof(o), vh_quote(s, n));
	VH_CHECK(r != b, "caller-buffer-kept", "the caller's buffer was kept");
	memset(b, 0x5a, n + 1); vh_unarg(b); store(o, s, n, last(o, r)); vh_count("stored whole", 1);
}
static void op_len(obj *o)
{
	char *s; unsigned n = gen(&s, 1), extra = vh_chance(40) ? (unsigned)vh_below(20) : 0; char *b; void *r;
	b = malloc(n + extra ? n + extra : 1); memcpy(b, s, n); memset(b + n, 'Z', extra);
	ACCT(tagof(o), r = ARGS ? (void *)arg_addn(o->h, b, (int)n) : (void *)(uintptr_t)mem_strncpy(o->h, b, (int)n));
	vh_op("%d: store %u bytes of \"%s\"", tagof(o), n, vh_quote(b, n + extra));
	memset(b, 0x5a, n + extra); free(b); store(o, s, n, last(o, r)); vh_count("stored by length", 1); if (!extra) vh_count("stored by length without terminator", 1);
}
static void op_grow(obj *o, int finish)
{
	char *s; unsigned n = gen(&s, 1), at = 0, pieces = 0; void *r;
	while (at < n || (pieces < 4 && vh_chance(40))) {
		unsigned left = n - at, k = vh_chance(20) ? 0 : vh_chance(20) ? left : (unsigned)vh_below(left + 1); char *b;
		if (pieces > 60) k = left;
		b = vh_arg(s + at, k);
		ACCT(tagof(o), if (ARGS) arg_grow(o->h, b, (int)k); else mem_grow(o->h, b, (int)k));
		memset(b, 0x5a, k); vh_unarg(b); at += k; pieces++; if (!k) vh_count("empty pieces", 1);
	}
	vh_op("%d: grow \"%s\" in %u pieces%s", tagof(o), vh_quote(s, n), pieces, finish ? "" : " and leave it");
	if (!finish) { free(s); vh_count("growth left unfinished", 1); return; }
	ACCT(tagof(o), r = ARGS ? (void *)arg_finish(o->h) : (void *)(uintptr_t)mem_finish(o->h));
	store(o, s, n, last(o, r)); vh_count("grown in pieces", 1); vh_max("most pieces", pieces);
}
/* strings grown in several objects at the same time; often of the same length at the same time */
static void op_growing_together(void)
{
	struct { char *s; unsigned n, at, pieces; } g[4]; int q, left = nO, even = vh_chance(60), started = 0; unsigned same = even ? (unsigned)vh_below(60) : 0;
	for (q = 0; q < nO; q++) { g[q].n = gen(&g[q].s, 1); g[q].at = g[q].pieces = 0; if (same && g[q].n > same && vh_chance(70)) g[q].n = same; }
	vh_op("%d strings grown at the same time%s", nO, even ? ", in turn" : "");
	while (left) {
		unsigned step = 1 + (unsigned)vh_below(20); int who = (int)vh_below(nO);
		for (q = 0; q < nO; q++) {
			obj *o = &O[q]; unsigned k; void *r; char *b;
			if ((!even && q != who) || !g[q].s) continue;
			if (g[q].at < g[q].n || (!g[q].pieces && vh_chance(50))) {
				k = g[q].n - g[q].at; if (k > step && g[q].pieces < 60) k = step;
				b = vh_arg(g[q].s + g[q].at, k);
				ACCT(tagof(o), if (ARGS) arg_grow(o->h, b, (int)k); else mem_grow(o->h, b, (int)k));
				memset(b, 0x5a, k); vh_unarg(b); g[q].at += k; g[q].pieces++; started++;
			} else {
				ACCT(tagof(o), r = ARGS ? (void *)arg_finish(o->h) : (void *)(uintptr_t)mem_finish(o->h));
				store(o, g[q].s, g[q].n, last(o, r)); g[q].s = NULL; left--;
			}
		}
	}
	if (nO > 1 && started) vh_count("strings grown at the same time", nO);
}
void vh_case(uint64_t idx)
{
	unsigned k, ops = vh_chance(4) ? 1500 + (unsigned)vh_below(vh_thorough ? 20000 : 3000) : 20 + (unsigned)vh_below(200); int q, grown = 0, dead = 0; uint64_t h = 0; unsigned most = 0;
	nO = 1 + (int)vh_below(4); acct_reset();
	for (q = 0; q < nO; q++) make(&O[q]);
	if (vh_chance(20)) { verify(&O[0]); stats(&O[0]); }
	for (k = 0; k < ops; k++) {
		obj *o = &O[ops > 1000 ? 0 : vh_below(nO)]; int w = (int)vh_below(100);
		h = vh_mix(h, w);
		if (w < 30) op_whole(o);
		else if (w < 60) op_len(o);
		else if (w < 82) { op_grow(o, 1); grown++; }
		else if (w < 85) { op_growing_together(); grown++; }
		else if (w < 90) { if (ops <= 1000 || vh_chance(2)) verify(o); }
		else if (w < 97) stats(o);
		else if (ops <= 1000) { if (vh_chance(30)) op_grow(o, 0); kill_obj(o); make(o); dead++; }
		if (o->n > most) most = o->n;
	}
	for (q = 0; q < nO; q++) { verify(&O[q]); stats(&O[q]); vh_digest(O[q].n + O[q].bytes * 1000); }
#if !ARGS
	disjoint();
#endif
	vh_max("most strings in one object", most);
	for (q = nO - 1; q >= 0; q--) kill_obj(&O[q]);
	vh_digest(h);
	if (grown > 1 && dead) vh_nontrivial();
	if (idx < 2) vh_sample("%u operations, %d grown in pieces, %d destroyed midway, most strings %u", ops, grown, dead, most);
}
