/* The containers at sizes the history monitors do not reach.  -DWHAT=1 hash table, 2 set, 3 walks,
   4 statistics, 5 set algebra, 6 list, 7 stack, 8 skip list, 9 string pool, 10 string memory,
   11 object memory, 12 argument list */
#include "vh.h"
#include <stddef.h>
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }

/* sizes: near powers of two and three, and spread over the scale */
#ifndef DOWN
#define DOWN 1 /* the sanitizer builds use smaller containers */
#endif
static unsigned size(unsigned lo, unsigned hi)
{
	unsigned n; lo /= DOWN; hi /= DOWN;
	do {
		int w = (int)vh_below(4); unsigned p = 1u << (8 + vh_below(15));
		if (w == 0) n = p - 3 + (unsigned)vh_below(7);
		else if (w == 1) n = p + (unsigned)vh_below(p);
		else if (w == 2) { n = 1; while (n < lo) n *= 3; n += (unsigned)vh_below(5); if (vh_chance(50)) n *= 3; }
		else n = lo + (unsigned)vh_below(hi - lo + 1);
	} while (n < lo || n > hi);
	return n;
}
static __attribute__((unused)) unsigned *permutation(unsigned n)
{
	unsigned *p = malloc((n + 1) * sizeof *p), i; int w = (int)vh_below(4);
	for (i = 0; i < n; i++) p[i] = w == 0 ? n - 1 - i : i;
	if (w > 1) for (i = n; i-- > 1;) { unsigned j = (unsigned)vh_below(i + 1), t = p[i]; p[i] = p[j]; p[j] = t; }
	return p;
}
#define SCALE (vh_thorough ? 1200000u : 270000u)

#if WHAT <= 5
typedef struct { uint32_t id; char text[20]; } rec;
static rec *R, *A; static unsigned N; static int kind, isset;
static unsigned long h_id(const void *p) { return ((const rec *)p)->id; }
static unsigned long h_far(const void *p) { return (unsigned long)((const rec *)p)->id * 0x9e3779b97f4a7c15UL; }
static unsigned long h_three(const void *p) { return ((const rec *)p)->id / 3; }
static unsigned long h_fold(const void *p) { return ((const rec *)p)->id % 30011; }
static unsigned long h_heavy(const void *p) { uint32_t i = ((const rec *)p)->id; return i < 700 ? 77 : i; }
static int c_id(const void *a, const void *b) { return ((const rec *)a)->id != ((const rec *)b)->id; }
#define RECKIND (kind == 2 || kind == 3 || kind > 4)
static const char *kname[] = { "strings", "pointers", "records", "records with wide hash values", "explicit string functions", "records with three to a hash value", "records with folded hash values", "records with one heavy hash value" };
typedef struct { void *h; const void **st; unsigned *dat; char *in; unsigned n; } box;
static unsigned char dpool[1 << 16];
static const void *K(unsigned i, int alias)
{
	rec *r = alias ? &A[i] : &R[i];
	if (kind == 1) return (void *)(uintptr_t)((uintptr_t)i * 16 + 8);
	return RECKIND ? (void *)r : (void *)r->text;
}
static unsigned idx_of(const void *k)
{
	const char *p = k; size_t off = RECKIND ? 0 : offsetof(rec, text);
	if (kind == 1) return (unsigned)(((uintptr_t)k - 8) / 16);
	if (p >= (char *)R && p < (char *)(R + N)) return (unsigned)((size_t)(p - (char *)R - off) / sizeof(rec));
	if (p >= (char *)A && p < (char *)(A + N)) return (unsigned)((size_t)(p - (char *)A - off) / sizeof(rec));
	return N;
}
static void universe(unsigned n)
{
	unsigned i; kind = (int)vh_below(8); N = n;
	R = calloc(n + 1, sizeof *R); A = calloc(n + 1, sizeof *A);
	for (i = 0; i < n; i++) { R[i].id = A[i].id = i; sprintf(R[i].text, i % 3 ? "%u" : "key %u x", i); strcpy(A[i].text, R[i].text); }
}
static void make(box *b)
{
	set_HashFunction hf = kind == 0 ? NULL : kind == 1 ? hsh_pointer_hash : kind == 2 ? h_id : kind == 3 ? h_far : kind == 5 ? h_three : kind == 6 ? h_fold : kind == 7 ? h_heavy : hsh_string_hash;
	set_CompareFunction cf = kind == 0 ? NULL : kind == 1 ? hsh_pointer_compare : kind == 4 ? hsh_string_compare : c_id;
	b->h = isset ? (void *)set_create(hf, cf) : (void *)hsh_create(hf, cf);
	b->st = calloc(N + 1, sizeof *b->st); b->dat = calloc(N + 1, sizeof *b->dat); b->in = calloc(N + 1, 1); b->n = 0;
}
static void drop(box *b) { if (isset) set_destroy(b->h); else hsh_destroy(b->h); free(b->st); free(b->dat); free(b->in); }
static void look(box *b, unsigned i)
{
	if (isset) { int r = set_member(b->h, K(i, vh_chance(50))); VH_CHECK(r == b->in[i], "membership-wrong", "membership of key %u is %d, should be %d (%u elements, %s)", i, r, b->in[i], b->n, kname[kind]); }
	else { const void *r = hsh_retrieve(b->h, K(i, vh_chance(50))), *w = b->in[i] ? dpool + b->dat[i] : NULL; VH_CHECK(r == w, "lookup-wrong", "look-up of key %u gives %p, should be %p (%u entries, %s)", i, r, w, b->n, kname[kind]); }
	vh_count("look-ups", 1);
}
static void ins(box *b, unsigned i)
{
	const void *k = K(i, vh_chance(30)); unsigned d = (unsigned)vh_below(sizeof dpool);
	int r = isset ? set_insert(b->h, k) : hsh_insert(b->h, k, dpool + d);
	VH_CHECK(r == b->in[i], "insert-result", "insertion of key %u gives %d with presence %d (%u present, %s)", i, r, b->in[i], b->n, kname[kind]);
	if (!b->in[i]) { b->in[i] = 1; b->n++; b->st[i] = k; b->dat[i] = d; }
	vh_count("insertions", 1);
}
static void del(box *b, unsigned i)
{
	const void *k = K(i, vh_chance(50)); int r = isset ? set_delete(b->h, k) : hsh_delete(b->h, k);
	VH_CHECK(r == !b->in[i], "delete-result", "deletion of key %u gives %d with presence %d (%u present, %s)", i, r, b->in[i], b->n, kname[kind]);
	if (b->in[i]) { b->in[i] = 0; b->n--; }
	vh_count("deletions", 1);
}
static box *W; static char *seen; static unsigned nseen; static long stop; static int dels, looks, learn; static char *was;
static int step(const void *k, const void *d)
{
	unsigned i = idx_of(k);
	if (i >= N || !was[i]) vh_fail("foreign-entry", "the walk presents %p, which was not there at its start", k);
	if (seen[i]) vh_fail("presented-twice", "the walk presents key %u twice", i);
	if (learn) W->st[i] = k; else
	VH_CHECK(W->st[i] == k, "pointer-changed", "the walk presents key %u by another pointer than the one stored", i);
	if (!isset && d != (void *)-1) VH_CHECK(d == dpool + W->dat[i], "datum-wrong", "the walk presents key %u with the wrong datum", i);
	seen[i] = 1; nseen++;
	if (looks && vh_chance(looks)) look(W, (unsigned)vh_below(N));
	if (dels && vh_chance(dels)) del(W, i);
	return stop >= 0 && (long)nseen > stop;
}
static int st2(const void *k, const void *d) { return step(k, d); }
static int st2a(const void *k, const void *d, void *a) { (void)a; return step(k, d); }
static int st1(const void *k) { return step(k, (void *)-1); }
static int st1a(const void *k, void *a) { (void)a; return step(k, (void *)-1); }
static void walk(box *b, int how)
{
	int r = 0; unsigned n0 = b->n;
	W = b; seen = calloc(N + 1, 1); was = malloc(N + 1); memcpy(was, b->in, N + 1); nseen = 0;
	if (how == 2 && isset) { set_Position p; void *e; SET_ITERATE(b->h, p, e) if (st1(e)) { r = 1; SET_ITERATE_END(b->h); break; } }
	else if (how == 2) { hsh_Position p; void *k, *d; HSH_ITERATE(b->h, p, k, d) if (st2(k, d)) { r = 1; HSH_ITERATE_END(b->h); break; } }
	else if (isset) r = how ? set_iterate_arg(b->h, st1a, NULL) : set_iterate(b->h, st1);
	else r = how ? hsh_iterate_arg(b->h, st2a, NULL) : hsh_iterate(b->h, st2);
	if (stop >= 0 && stop < (long)n0) { VH_CHECK(r != 0 && nseen == (unsigned)stop + 1, "stop", "walk asked to stop after %ld of %u entries presented %u and returned %d", stop + 1, n0, nseen, r); vh_count("walks ended early", 1); }
	else VH_CHECK(!r && nseen == n0, "entries-missed", "walk presented %u of %u entries and returned %d (%s)", nseen, n0, r, kname[kind]);
	free(seen); free(was); vh_count("walks over large containers", 1); vh_count("entries presented", nseen); learn = 0;
}
static void plain_walk(box *b) { stop = -1; dels = looks = 0; walk(b, (int)vh_below(3)); }
static void grow_to(box *b, unsigned n) { unsigned *p = permutation(N), i; for (i = 0; i < N && b->n < n; i++) { ins(b, p[i]); if (vh_chance(3)) ins(b, p[vh_below(i + 1)]); if (vh_chance(3)) look(b, (unsigned)vh_below(N)); } free(p); }
static void shrink_to(box *b, unsigned n) { unsigned *p = permutation(N), i; for (i = 0; i < N && b->n > n; i++) { del(b, p[i]); if (vh_chance(3)) look(b, (unsigned)vh_below(N)); } free(p); }
static void all(box *b) { unsigned i; for (i = 0; i < N; i++) look(b, i); if (isset) VH_CHECK((unsigned)set_count(b->h) == b->n, "count-wrong", "count is %d, should be %u", set_count(b->h), b->n); }
void vh_case(uint64_t idx)
{
	box b; unsigned n, k; (void)idx;
	isset = WHAT == 2 || WHAT == 5 ? 1 : WHAT == 1 ? 0 : vh_chance(50);
	n = size(20000, SCALE); universe(n); make(&b);
	vh_op("%s of %s, %u keys", isset ? "set" : "table", kname[kind], n);
#if WHAT <= 2
	grow_to(&b, n); all(&b);
	for (k = 0; k < 3; k++) { shrink_to(&b, (unsigned)vh_below(b.n)); if (k == 1) all(&b); grow_to(&b, b.n + (unsigned)vh_below(n - b.n + 1)); }
	all(&b); plain_walk(&b); vh_count("complete content comparisons", 1);
	shrink_to(&b, 0); all(&b); plain_walk(&b); grow_to(&b, n / 2); all(&b);
#elif WHAT == 3
	grow_to(&b, n - (unsigned)vh_below(n / 4));
	for (k = 0; k < 5; k++) {
		int how = (int)vh_below(3);
		stop = vh_chance(40) ? (long)vh_below(b.n) : -1; looks = vh_chance(60) ? 20 : 0; dels = !isset && how != 2 && vh_chance(50) ? 1 + (int)vh_below(100) : 0;
		walk(&b, how);
		{ int m = isset ? set_readonly(b.h, 0) : hsh_readonly(b.h, 0); VH_CHECK(!m, "mark-left", "the read-only mark is still set after the walk"); }
		all(&b); grow_to(&b, n - (unsigned)vh_below(n / 4));
	}
#elif WHAT == 4
	{
		unsigned long rs = 0, last = 0, ret = 0, miss = 0, hit = 0; unsigned i, *p = permutation(n), at = 0;
		for (i = 0; i < n + n / 2; i++) {
			unsigned q = p[i % n]; int r;
			if (i < n) { r = isset ? set_insert(b.h, K(q, 0)) : hsh_insert(b.h, K(q, 0), dpool); VH_CHECK(!r, "insert-result", "insertion"); b.in[q] = 1; b.n++; }
			else { r = isset ? set_delete(b.h, K(q, 1)) : hsh_delete(b.h, K(q, 1)); VH_CHECK(!r, "delete-result", "deletion"); b.in[q] = 0; b.n--; }
			if (i % 3 == 0) { q = (unsigned)vh_below(n); look(&b, q); ret++; miss += !b.in[q]; }
			if (i == at || i == n - 1 || i == n + n / 2 - 1) {
				unsigned long size, res, ent, used, one, longest, re, hi, mi, d;
				if (isset) { set_Stats s = set_get_stats(b.h); size = s->size; res = s->resizings; ent = s->entries; used = s->buckets_used; one = s->singletons; longest = s->maximum_length; re = s->retrievals; hi = s->hits; mi = s->misses; xfree(s); }
				else { hsh_Stats s = hsh_get_stats(b.h); size = s->size; res = s->resizings; ent = s->entries; used = s->buckets_used; one = s->singletons; longest = s->maximum_length; re = s->retrievals; hi = s->hits; mi = s->misses; xfree(s); }
				for (d = 2; d * d <= size; d++) VH_CHECK(size % d, "size-not-prime", "size %lu is divisible by %lu", size, d);
				VH_CHECK(ent == b.n && re == ret && mi == miss && hi >= hit && hi + mi <= re, "counts-wrong", "entries %lu of %u, retrievals %lu of %lu, failed %lu of %lu, hits %lu", ent, b.n, re, ret, mi, miss, hi);
				if (i < n) VH_CHECK(ent <= size / 2 + 1, "overfull", "%lu entries in size %lu", ent, size);
				else VH_CHECK(size == last, "growth-on-delete", "size went from %lu to %lu while deleting", last, size);
				if (last && size != last) { unsigned long need = last; for (d = rs; d < res; d++) need *= 3; VH_CHECK(res > rs && res < rs + 20 && size >= need, "growth-small", "size went from %lu to %lu with %lu resizings", last, size, res - rs); }
				else if (last) VH_CHECK(res == rs, "resizings-wrong", "resizings went from %lu to %lu at size %lu", rs, res, size);
				VH_CHECK(one <= used && used <= ent && used <= size && one + (ent - one) >= used && longest <= ent - used + 1, "layout-inconsistent", "entries %lu used %lu singletons %lu longest %lu", ent, used, one, longest);
				vh_count("statistics read", 1); if (res > rs) vh_count("resizings observed", res - rs); rs = res; last = size; hit = hi; at = i + 1 + (unsigned)vh_below(1 + n / 40); vh_max("largest size", size);
			}
		}
		free(p);
	}
#elif WHAT == 5
	{
		box c, r; unsigned i; static const char *nm[] = { "union", "intersection", "difference", "in-place addition", "in-place removal" };
		make(&c);
		grow_to(&b, vh_chance(30) ? n : (unsigned)vh_below(n)); grow_to(&c, vh_chance(30) ? n : vh_chance(20) ? (unsigned)vh_below(10) : (unsigned)vh_below(n));
		for (k = 0; k < 5; k++) {
			unsigned want = 0; int same = vh_chance(10); box *y = same ? &b : &c;
			vh_op("%s of %u and %u elements", nm[k], b.n, y->n);
			make(&r); set_destroy(r.h);
			for (i = 0; i < n; i++) { r.in[i] = k == 0 || k == 3 ? b.in[i] | y->in[i] : k == 1 ? b.in[i] & y->in[i] : b.in[i] & !y->in[i]; want += r.in[i]; r.st[i] = b.in[i] ? b.st[i] : y->st[i]; }
			r.n = want;
			if (k < 3) {
				unsigned q;
				r.h = k == 0 ? set_union(b.h, y->h) : k == 1 ? set_inter(b.h, y->h) : set_diff(b.h, y->h);
				all(&r); learn = 1; plain_walk(&r); all(&b); all(&c); 
				VH_CHECK(!!set_equal(r.h, b.h) == !memcmp(r.in, b.in, n), "equality-wrong", "equality of %u and %u elements", r.n, b.n);
				for (q = 0; q < 5; q++) { unsigned x = (unsigned)vh_below(n); if (r.in[x]) { del(&r, x); VH_CHECK(!!set_equal(r.h, b.h) == !memcmp(r.in, b.in, n), "equality-wrong", "equality of %u and %u elements", r.n, b.n); ins(&r, x); } }
				if (k == 0) { /* a copy with one element exchanged for another, in both orders */
					box e; make(&e); for (q = 0; q < n; q++) if (b.in[q]) ins(&e, q);
					VH_CHECK(set_equal(e.h, b.h) && set_equal(b.h, e.h), "equality-wrong", "a copy of %u elements differs", b.n);
					for (q = 0; q < 24 && b.n && b.n < n; q++) {
						unsigned x, y; do x = (unsigned)vh_below(n); while (!b.in[x]); do y = (unsigned)vh_below(n); while (b.in[y]);
						del(&e, x); ins(&e, y);
						VH_CHECK(!set_equal(e.h, b.h) && !set_equal(b.h, e.h), "equality-wrong", "two sets of %u elements are equal although element %u was exchanged for %u (%s)", b.n, x, y, kname[kind]);
						del(&e, y); ins(&e, x); vh_count("exchanges", 1);
					}
					VH_CHECK(set_equal(e.h, b.h) && set_equal(b.h, e.h), "equality-wrong", "a copy of %u elements differs", b.n);
					drop(&e);
				}
				drop(&r);
			} else {
				set_Set g = k == 3 ? set_add(b.h, y->h) : set_del(b.h, y->h);
				VH_CHECK(g == b.h, "in-place-result", "%s returned another set", nm[k]);
				memcpy(b.st, r.st, n * sizeof *b.st); memcpy(b.in, r.in, n); b.n = want; free(r.st); free(r.dat); free(r.in);
				all(&b); plain_walk(&b); if (!same) all(&c); grow_to(&b, (unsigned)vh_below(n));
			}
			vh_count("set operations", 1);
		}
		drop(&c);
	}
#endif
	vh_nontrivial(); vh_digest(n); vh_digest(b.n); vh_max("largest container", n);
	if (idx < 2) vh_sample("%s of %s, %u keys", isset ? "set" : "table", kname[kind], n);
	drop(&b); free(R); free(A);
}

#elif WHAT == 6
static const void **E; static unsigned nE, at_; static long stop;
static int it(const void *d) { VH_CHECK(at_ < nE && d == E[at_], "iteration-wrong", "iteration presents %p as element %u of %u, should be %p", d, at_ + 1, nE, at_ < nE ? E[at_] : NULL); at_++; return stop >= 0 && (long)at_ > stop; }
static int ita6(const void *d, void *a) { VH_CHECK(a == (void *)&nE, "argument-lost", "the callback got another argument"); return it(d); }
static void same(lst_List l, const void **a, unsigned n)
{
	unsigned i = 0; lst_Position p; void *e;
	VH_CHECK(lst_length(l) == n, "length-wrong", "length %u, should be %u", lst_length(l), n);
	LST_ITERATE(l, p, e) { VH_CHECK(i < n && e == a[i], "sequence-wrong", "element %u of %u is wrong", i + 1, n); i++; }
	VH_CHECK(i == n, "sequence-short", "walk ends after %u of %u", i, n);
	E = a; nE = n; at_ = 0; stop = vh_chance(40) && n ? (long)vh_below(n) : -1;
	{ int r = vh_chance(50) ? lst_iterate(l, it) : lst_iterate_arg(l, ita6, (void *)&nE); VH_CHECK(!!r == (stop >= 0) && at_ == (stop >= 0 ? (unsigned)stop + 1 : n), "iteration-short", "iteration presents %u of %u", at_, n); }
	for (i = 0; i < 12; i++) { unsigned q = i < 2 ? i : i < 4 ? n - 2 + i : (unsigned)vh_below(n + 3); void *r = lst_nth_get(l, q), *w = q >= 1 && q <= n ? (void *)a[q - 1] : NULL; VH_CHECK(r == w, "nth-wrong", "element %u of %u is %p, should be %p", q, n, r, w); }
	VH_CHECK(lst_top(l) == (n ? (void *)a[0] : NULL), "top-wrong", "the first of %u", n);
	{ lst_Position z = lst_last_position(l); VH_CHECK(n ? z && lst_get_position(z) == (void *)a[n - 1] && !lst_next_position(z) : !z, "last-wrong", "the last position of %u", n); }
	if (n) { unsigned q = (unsigned)vh_below(n); VH_CHECK(lst_member(l, a[q]), "member-wrong", "element %u of %u is not a member", q + 1, n); VH_CHECK(!lst_member(l, &nE), "member-wrong", "a stranger is a member of %u", n); }
	vh_count("complete comparisons", 1);
}
void vh_case(uint64_t idx)
{
	unsigned n = size(30000, vh_thorough ? 4000000 : 700000), i, k, m = 0, cap = 3 * n + 1000; lst_List l = lst_create(), l2; const void **a = malloc(cap * sizeof *a), **c = malloc(2 * cap * sizeof *c);
	vh_op("list of %u", n);
	for (i = 0; i < n; i++) { a[m] = (void *)(uintptr_t)(vh_u64() >> 8); lst_append(l, a[m++]); }
	same(l, a, m);
	for (k = 0; k < 4; k++) {
		unsigned q = (unsigned)vh_below(m + 1); lst_Position p = NULL;
		switch (vh_below(5)) {
		case 3: for (i = 0; i < 2000 && m; i++) { unsigned x = vh_chance(10) ? m : 1 + (unsigned)vh_below(m); const void *v = (void *)(uintptr_t)(vh_u64() >> 8); if (i & 1) lst_nth_set(l, x, v); else lst_set_position(lst_nth_position(l, x), v); a[x - 1] = v; if (i > 200) i += 200; } vh_op("set elements"); break;
		case 4: for (i = 0; i < 50; i++) { const void *v = (void *)(uintptr_t)(vh_u64() >> 8); lst_push(l, v); memmove(a + 1, a, m * sizeof *a); a[0] = v; m++; } vh_op("push 50"); break;
		case 0: vh_op("truncate to %u", q); lst_truncate(l, q); if (q < m) m = q; break;
		case 1: vh_op("pop %u", q); for (i = 0; i < q; i++) { void *r = lst_pop(l); VH_CHECK(r == a[i], "pop-wrong", "pop %u gives %p, should be %p", i, r, a[i]); } memmove(a, a + q, (m - q) * sizeof *a); m -= q; break;
		case 2: if (q < 1) break; p = lst_nth_position(l, q); vh_op("truncate behind position %u", q); lst_truncate_position(l, p); m = q; break;
		}
		same(l, a, m);
		for (i = 0; i < n / 2; i++) { const void *v = (void *)(uintptr_t)(vh_u64() >> 8); lst_append(l, v); a[m++] = v; if (m + n > cap) break; }
		same(l, a, m);
		if (m + n > cap) { lst_truncate(l, n / 2); m = n / 2; }
	}
	l2 = lst_create(); for (i = 0; i < n / 3; i++) { lst_push(l2, a[i]); } for (i = 0; i < n / 3; i++) c[i] = a[n / 3 - 1 - i];
	same(l2, c, n / 3);
	lst_destroy(l);
	lst_destroy(l2); vh_digest(n * 7 + m); vh_nontrivial(); vh_max("longest list", n + n / 2); free(a); free(c);
	if (idx < 2) vh_sample("list of %u elements", n);
	_lst_shutdown();
}

#elif WHAT == 7
void vh_case(uint64_t idx)
{
	unsigned n = size(50000, vh_thorough ? 8000000 : 1500000), m = 0, k, cap = n; stk_Stack s = stk_create(); uintptr_t *a = malloc((cap + 1) * sizeof *a);
	vh_op("stack of up to %u", n);
	for (k = 0; k < 5; k++) {
		unsigned up = k == 0 ? n : m + (unsigned)vh_below(n - m + 1), down;
		while (m < up) { a[m] = vh_u64() >> (vh_chance(5) ? 63 : 3); stk_push(s, (void *)a[m]); m++; if (!(m & 1023)) VH_CHECK(!stk_isempty(s) && stk_top(s) == (void *)a[m - 1], "top-wrong", "top at depth %u", m); }
		down = k == 4 ? 0 : (unsigned)vh_below(m + 1);
		while (m > down) { void *r = stk_pop(s); m--; VH_CHECK(r == (void *)a[m], "pop-wrong", "pop at depth %u gives %p, should be %p", m + 1, r, (void *)a[m]); }
		vh_op("up to %u, down to %u", up, down);
	}
	VH_CHECK(stk_isempty(s) && stk_pop(s) == NULL && stk_top(s) == NULL && stk_isempty(s), "not-empty", "the stack is not empty after as many pops as pushes");
	stk_destroy(s); free(a); vh_digest(n); vh_nontrivial(); vh_max("greatest depth", n);
	if (idx < 2) vh_sample("stack of %u", n);
}

#elif WHAT == 8
static unsigned at_, nn; static const uint64_t *V; static const char *IN;
static int cmp(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }
static char *LIVE; static sl_List SL; static long stop; static int churn; static unsigned given;
static int it(const void *d)
{
	while (at_ < nn && !IN[at_]) at_++;
	VH_CHECK(at_ < nn && d == &V[at_], "iteration-wrong", "iteration presents datum %ld, should present %u", (long)((const uint64_t *)d - V), at_);
	if (churn && (given < 3 || vh_chance(churn))) { /* ahead, behind, and the one presented */
		unsigned q = vh_chance(30) ? at_ : vh_chance(50) ? (unsigned)vh_below(nn) : at_ + (unsigned)vh_below(nn - at_ < 4 ? nn - at_ : 4);
		if (LIVE[q]) sl_delete(SL, &V[q]); else sl_insert(SL, &V[q]);
		LIVE[q] ^= 1; vh_count("mutations inside a large walk", 1);
	}
	at_++; given++;
	return stop >= 0 && (long)given > stop ? 77 : 0;
}
static int ita(const void *d, void *a) { VH_CHECK(a == (void *)&at_, "argument-lost", "the callback got another argument"); return it(d); }
static void walk8(sl_List l, char *in, unsigned n)
{
	char *was = malloc(n + 1); unsigned i, present = 0; int r;
	memcpy(was, in, n); IN = was; LIVE = in; SL = l; at_ = given = 0;
	for (i = 0; i < n; i++) present += was[i];
	churn = vh_chance(50) ? 1 + (int)vh_below(60) : 0; stop = vh_chance(25) && present ? (long)vh_below(present) : -1;
	r = vh_chance(50) ? sl_iterate(l, it) : sl_iterate_arg(l, ita, (void *)&at_);
	VH_CHECK(r == (stop >= 0 ? 77 : 0), "walk-result", "walk over %u data returned %d", present, r);
	VH_CHECK(given == (stop >= 0 ? (unsigned)stop + 1 : present), "iteration-short", "walk presented %u of %u data", given, present);
	free(was); vh_count("complete comparisons", 1);
}
void vh_case(uint64_t idx)
{
	unsigned n = size(20000, vh_thorough ? 600000 : 200000), i, k, *p; sl_List l = sl_create(cmp, NULL, NULL); uint64_t *v = malloc((n + 1) * sizeof *v); char *in = calloc(n + 1, 1);
	for (i = 0; i < n; i++) v[i] = (uint64_t)i * 3 + 1;
	nn = n; V = v; vh_op("skip list of %u", n);
	for (k = 0; k < 4; k++) {
		p = permutation(n);
		for (i = 0; i < n; i++) { unsigned q = p[i]; if (k & 1) { if (in[q] && vh_chance(k == 1 ? 60 : 100)) { sl_delete(l, &v[q]); in[q] = 0; vh_count("deletions", 1); } } else if (!in[q]) { sl_insert(l, &v[q]); in[q] = 1; vh_count("insertions", 1); }
			if (!(i & 7)) { uint64_t key = v[vh_below(n)] - vh_below(2); unsigned j = (unsigned)((key - 1) / 3); const void *r = sl_find(l, &key), *w = key % 3 == 1 && in[j] ? &v[j] : NULL; VH_CHECK(r == w, "find-wrong", "look-up of %llu gives %p, should be %p", (unsigned long long)key, r, w); vh_count("look-ups", 1); } }
		free(p);
		walk8(l, in, n); walk8(l, in, n); walk8(l, in, n); 
		for (i = 0; i < n; i++) { const void *r = sl_find(l, &v[i]), *w = in[i] ? &v[i] : NULL; VH_CHECK(r == w, "find-wrong", "look-up of datum %u gives %p, should be %p", i, r, w); }
	}
	sl_destroy(l); _sl_shutdown(); free(v); free(in); vh_digest(n); vh_nontrivial(); vh_max("most data in a list", n);
	if (idx < 2) vh_sample("skip list of %u", n);
}

#elif WHAT == 9
static int pcmp9(const void *a, const void *b) { uintptr_t x = (uintptr_t)*(char *const *)a, y = (uintptr_t)*(char *const *)b; return x < y ? -1 : x > y; }
static const char **p9; static unsigned n9, seen9; static long stop9;
static int each9(const char *k)
{
	const char *t = k, *dig = strncmp(t, "content ", 8) ? t : t + 8; char *e; unsigned long q = strtoul(dig, &e, 10);
	seen9++;
	if (*dig && !*e && q < n9 && strlen(t) < 40) VH_CHECK(p9[q] == t, "walk-pointer", "the walk presents content %lu by another pointer", q);
	else VH_CHECK(strlen(t) > 1000, "walk-foreign", "the walk presents \"%.60s\"", t);
	return stop9 >= 0 && (long)seen9 > stop9;
}
static int each9a(const char *k, void *a) { VH_CHECK(a == (void *)&n9, "argument-lost", "the callback got another argument"); return each9(k); }
void vh_case(uint64_t idx)
{
	unsigned n = size(20000, vh_thorough ? 1000000 : 250000), i, k; int global = vh_chance(40); const char **p = calloc(n + 1, sizeof *p); char b[64]; str_Pool s = global ? NULL : str_pool_create(); unsigned long bytes = 0; unsigned retr = 0, more = 0; const char *V9[5];
	vh_op("%s pool, %u contents", global ? "global" : "own", n);
	for (k = 0; k < 3; k++) for (i = 0; i < n; i++) {
		unsigned q = k == 1 ? n - 1 - i : i; int len = sprintf(b, q % 4 ? "%u" : "content %u", q), how = global ? (int)vh_below(3) : 2 * (int)vh_below(2), e = 0; const char *r;
		if (how == 1) { memcpy(b + len, "tail", 5); }
		if (!global && how == 2 && p[q]) { e = str_pool_exists(s, b); VH_CHECK(e, "exists-wrong", "content %u is not there after it was interned", q); }
		if (!p[q] && !global) { b[len] = 0; VH_CHECK(!str_pool_exists(s, b), "exists-wrong", "content %u is there before it was interned", q); if (how == 1) b[len] = 't'; }
		r = how == 1 ? str_findn(b, len) : global ? str_find(b) : str_pool_find(s, b);
		b[len] = 0; retr++;
		VH_CHECK(!strcmp(r, b), "content-wrong", "content %u is \"%s\"", q, r);
		if (!p[q]) { p[q] = r; bytes += len + 1; } else VH_CHECK(p[q] == r, "pointer-changed", "content %u has another pointer than before (%u contents)", q, n);
		memset(b, 0x5a, sizeof b);
		vh_count("strings interned or found", 1);
	}
	for (i = 0; i < n; i++) { sprintf(b, i % 4 ? "%u" : "content %u", i); VH_CHECK(!strcmp(p[i], b), "content-changed", "content %u became \"%s\"", i, p[i]); }
	if (!global) { str_Stats t = str_pool_get_stats(s); VH_CHECK(t->count == (int)n && t->bytes == (int)bytes, "stats-wrong", "count %d of %u, bytes %d of %lu", t->count, n, t->bytes, bytes); xfree(t); }
	{ /* one long string, whole and grown */
		unsigned L = size(100000, vh_thorough ? 20000000 : 3000000), at = 0; char *big = malloc(L + 1), *c; const char *r, *g;
		for (i = 0; i < L; i++) big[i] = (char)(1 + (i * 2654435761u >> 13) % 255);
		big[L] = 0; c = malloc(L + 1); memcpy(c, big, L + 1);
		r = global ? str_find(c) : str_pool_find(s, c);
		while (at < L) { unsigned m = 1 + (unsigned)vh_below(L / 20 + 1); if (m > L - at) m = L - at; if (global) str_grow(c + at, (int)m); else str_pool_grow(s, c + at, (int)m); at += m; }
		memset(c, 1, L); g = global ? str_finish() : str_pool_finish(s);
		VH_CHECK(!memcmp(r, big, L + 1), "content-wrong", "a string of %u bytes is not what was given", L);
		VH_CHECK(g == r, "not-unique", "a string of %u bytes grown in pieces has another pointer", L);
		for (k = 0; k < 5; k++) { /* contents that differ from it late, in the middle, or in length only */
			unsigned j = k == 0 ? L - 1 : k == 1 ? L / 2 : (unsigned)vh_below(L), l2 = L; const char *r2, *r3;
			memcpy(c, big, L + 1); if (k < 3) c[j] = (char)(c[j] == 'z' ? 'y' : 'z'); else { if (k == 3) j = L - 1; if (k == 4) j = L / 2 + j / 2; c[j] = 0; l2 = j; }
			{ unsigned q; for (q = 0; q < more && strcmp(V9[q], c); q++) ; if (q < more) continue; }
			if (!global) VH_CHECK(!str_pool_exists(s, c), "exists-wrong", "a string of %u bytes is there, another of %u was interned", l2, L);
			r2 = global ? str_find(c) : str_pool_find(s, c);
			VH_CHECK(r2 != r && !memcmp(r2, c, l2 + 1), "confused", "two strings of %u and %u bytes that differ at byte %u are taken for one", L, l2, j);
			r3 = global ? str_find(big) : str_pool_find(s, big); VH_CHECK(r3 == r, "not-unique", "a string of %u bytes has another pointer than before", L); V9[more++] = r2;
			vh_count("long strings that differ late", 1);
		}
		free(c); free(big); vh_max("longest string", L);
	}
	if (global) { /* unique strings far beyond the first few; prefixes with and without digits at their end */
		unsigned U = size(20000, vh_thorough ? 400000 : 120000); static const char *const pf[] = { "u", "", "name_", "9", "a rather longer prefix than the others " }; const char *x = pf[vh_below(5)], **u = malloc(U * sizeof *u);
		for (i = 0; i < U; i++) {
			if (vh_chance(1)) { str_find(x); }
			u[i] = str_unique(x); VH_CHECK(!strncmp(u[i], x, strlen(x)), "unique-prefix", "unique string %u is \"%s\"", i, u[i]);
		}
		for (i = 0; i < U; i++) VH_CHECK(str_find(u[i]) == u[i], "unique-not-interned", "unique string %u has another pointer", i);
		qsort(u, U, sizeof *u, pcmp9); for (i = 1; i < U; i++) VH_CHECK(u[i] != u[i - 1] , "unique-twice", "\"%s\" was given twice", u[i]);
		for (i = 0; i < n; i++) { unsigned q = (unsigned)(bsearch(&p[i], u, U, sizeof *u, pcmp9) != NULL); VH_CHECK(!q, "unique-old", "content \"%s\" was there before", p[i]); }
		vh_count("unique strings", U); free(u);
	} else { /* walks: every content once, also when stopped and in the other form */
		for (k = 0; k < 3; k++) {
			long stop = k == 1 ? (long)vh_below(n) : -1; int r = 0; char *e; str_Position ps; unsigned j; (void)j;
			p9 = p; n9 = n; seen9 = 0; stop9 = stop;
			if (k == 2) { STR_ITERATE(s, ps, e) each9(e); }
			else r = vh_chance(50) ? str_pool_iterate(s, each9) : str_pool_iterate_arg(s, each9a, (void *)&n9);
			VH_CHECK(!!r == (stop >= 0), "walk-result", "walk over %u contents returned %d", n, r);
			/* one long string is there besides the n contents */
			VH_CHECK(seen9 == (stop >= 0 ? (unsigned)stop + 1 : n + 1 + more), "walk-count", "walk presented %u of %u contents", seen9, n + 1 + more);
			sprintf(b, "content %u", 0u); VH_CHECK(str_pool_exists(s, b) && str_pool_find(s, b) == p[0], "pointer-changed", "after a walk");
			sprintf(b, "new after walk %u", k); VH_CHECK(!str_pool_exists(s, b), "exists-wrong", "new content"); { const char *c = str_pool_copy(s, b); VH_CHECK(!strcmp(c, b) && !str_pool_exists(s, b), "copy-interned", "a plain copy was interned"); }
			vh_count("walks over large pools", 1);
		}
	}
	if (global) str_destroy(); else str_pool_destroy(s);
	free(p); vh_digest(n); vh_nontrivial(); vh_max("most contents in a pool", n);
	if (idx < 2) vh_sample("pool of %u contents", n);
}

#elif WHAT == 10 || WHAT == 12
typedef struct { const char *p; unsigned seed, len; } item;
static void gen(char *b, unsigned seed, unsigned len) { unsigned i, nul = seed & 1; for (i = 0; i < len; i++) { seed = seed * 1103515245u + 12345; b[i] = nul ? (char)(seed >> 16) : (char)(1 + (seed >> 16) % 255); } b[len] = 0; }   /* odd seeds: with zero bytes */
void vh_case(uint64_t idx)
{
	unsigned n = size(20000, vh_thorough ? 1500000 : 300000), i, giant = n / 3 + 1; item *a = calloc(n + 1, sizeof *a); unsigned L = size(100000, vh_thorough ? 30000000 : 3000000); char *b = malloc(L + 20008), *w = malloc(L + 20008); long bytes = 0;
#if WHAT == 12
	arg_List o = arg_create(); int ac = -1; char **av = NULL;
#else
	mem_String o = mem_create_strings();
#endif
	vh_op("%u strings, longest %u", n, L);
	for (i = 0; i < n; i++) {
		int how = (int)vh_below(3); unsigned at = 0; const char *r = NULL;
		a[i].seed = (unsigned)vh_u64(); if (!how) a[i].seed &= ~1u; a[i].len = i == giant ? L : i % 1000 == 5 ? (unsigned)vh_below(20000) : (unsigned)vh_below(24);
		gen(b, a[i].seed, a[i].len); bytes += a[i].len + 1;
		if (how) b[a[i].len] = '!';
		if (how == 2) while (at < a[i].len) { unsigned m = i == giant ? 1 + (unsigned)vh_below(L / 50) : 1 + (unsigned)vh_below(a[i].len); if (m > a[i].len - at) m = a[i].len - at;
#if WHAT == 12
			arg_grow(o, b + at, (int)m);
#else
			mem_grow(o, b + at, (int)m);
#endif
			at += m; }
#if WHAT == 12
		VH_CHECK((how == 0 ? arg_add(o, b) : how == 1 ? arg_addn(o, b, (int)a[i].len) : arg_finish(o)) == o, "result-handle", "the operation returned another list");
		r = arg_get(o, (int)i);
#else
		r = how == 0 ? mem_strcpy(o, b) : how == 1 ? mem_strncpy(o, b, (int)a[i].len) : mem_finish(o);
#endif
		b[a[i].len] = 0; a[i].p = r;
		VH_CHECK(!memcmp(r, b, a[i].len + 1), "content-wrong", "string %u of %u bytes is wrong just after it was stored", i, a[i].len);
		memset(b, 0x11, a[i].len + 1); vh_count("strings stored", 1);
#if WHAT == 12
		if (i == giant || vh_chance(1) ) { unsigned q = (unsigned)vh_below(i + 1); arg_get_vector(o, &ac, &av); VH_CHECK(ac == (int)i + 1 && arg_count(o) == ac && !av[ac], "vector-count", "vector of %u has count %d", i + 1, ac); gen(w, a[q].seed, a[q].len); VH_CHECK(!memcmp(av[q], w, a[q].len + 1), "content-wrong", "vector entry %u of %u is wrong", q, i + 1); vh_count("vectors read", 1); }
#endif
	}
#if WHAT == 12
	arg_get_vector(o, &ac, &av); VH_CHECK(ac == (int)n && arg_count(o) == ac && !av[ac], "vector-count", "vector of %u has count %d", n, ac);
#endif
	for (i = 0; i < n; i++) {
		const char *p = a[i].p;
#if WHAT == 12
		p = arg_get(o, (int)i); if (av[i] != p) VH_CHECK(!memcmp(av[i], p, a[i].len + 1), "vector-differs", "item and vector entry %u differ", i);
#endif
		gen(w, a[i].seed, a[i].len); VH_CHECK(!memcmp(p, w, a[i].len + 1), "content-changed", "string %u of %u bytes changed", i, a[i].len);
	}
	vh_count("complete comparisons", 1);
#if WHAT == 12
	arg_destroy(o);
#else
	{ mem_StringStats s = mem_get_string_stats(o); VH_CHECK(s->count == (int)n && s->bytes == bytes, "stats-wrong", "count %d of %u, bytes %d of %ld", s->count, n, s->bytes, bytes); xfree(s); vh_count("statistics read", 1); }
	mem_destroy_strings(o);
#endif
	free(a); free(b); free(w); vh_digest(n); vh_digest(L); vh_nontrivial(); vh_max("most strings in one object", n); vh_max("longest string", L);
	if (idx < 2) vh_sample("%u strings, longest %u", n, L);
}

#elif WHAT == 11
static int pcmp(const void *a, const void *b) { uintptr_t x = *(const uintptr_t *)a, y = *(const uintptr_t *)b; return x < y ? -1 : x > y; }
void vh_case(uint64_t idx)
{
	static const int sz[] = { 4, 8, 12, 16, 24, 32, 48, 100 };
	unsigned n = size(30000, vh_thorough ? 2000000 : 400000), i, k, live = 0, top = 0; int s = sz[vh_below(8)]; mem_Object o = mem_create_objects(s); uint32_t **p = calloc(n + 1, sizeof *p); long used = 0, total = 0, reused = 0;
	vh_op("%u objects of %d bytes", n, s);
	for (k = 0; k < 4; k++) {
		unsigned goal = k == 0 ? n : live + (unsigned)vh_below(n - live + 1), back;
		while (live < goal) {
			int empty = vh_chance(30); uint32_t *q = empty ? mem_get_empty_object(o) : mem_get_object(o);
			if (used < total) reused++; else total++;
			used++;
			if (empty) for (i = 0; i < (unsigned)s; i++) VH_CHECK(!((char *)q)[i], "not-empty", "byte %u of an empty object is set", i);
			for (i = 0; i + 4 <= (unsigned)s; i += 4) q[i / 4] = (uint32_t)((uintptr_t)q >> 2) ^ i;
			p[live++] = q; vh_count("objects", 1);
		}
		if (live > top) top = live;
		for (i = live; i-- > 1;) { unsigned j = (unsigned)vh_below(i + 1); uint32_t *t = p[i]; p[i] = p[j]; p[j] = t; }
		back = (unsigned)vh_below(live + 1); if (vh_chance(20)) back = live;
		while (back--) { uint32_t *q = p[--live]; for (i = 0; i + 4 <= (unsigned)s; i += 4) VH_CHECK(q[i / 4] == ((uint32_t)((uintptr_t)q >> 2) ^ i), "contents-changed", "a live object changed at byte %u", i); mem_free_object(o, q); used--; }
		{ mem_ObjectStats t = mem_get_object_stats(o); VH_CHECK(t->total == total && t->used == used && t->reused == reused && t->size == s, "stats-wrong", "reports total %d used %d reused %d; fresh %ld out %ld recycled %ld", t->total, t->used, t->reused, total, used, reused); xfree(t); vh_count("statistics read", 1); }
		qsort(p, live, sizeof *p, pcmp);
		for (i = 1; i < live; i++) VH_CHECK((char *)p[i] >= (char *)p[i - 1] + s, "objects-overlap", "live objects overlap: %p and %p of %d bytes", (void *)p[i - 1], (void *)p[i], s);
		for (i = 0; i < live; i++) VH_CHECK(p[i][0] == (uint32_t)((uintptr_t)p[i] >> 2), "contents-changed", "a live object changed");
		vh_count("address maps checked", 1);
	}
	mem_destroy_objects(o); free(p); vh_digest(n); vh_digest(s); vh_nontrivial(); vh_max("most objects live", top);
	if (idx < 2) vh_sample("%u objects of %d bytes", n, s);
}
#endif
