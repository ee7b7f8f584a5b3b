/* C11: object memories */
#include "vh.h"
#include "acct.h"
typedef struct { unsigned char *p; unsigned char pat; int out; } slot;      /* every address ever handed out by a memory */
typedef struct { mem_Object h; int size; slot *s; unsigned n, cap; int used, total, reused; } mo;
static mo M[4]; static int nM;
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; acct_init(); }
static int tagof(mo *m) { return 1 + (int)(m - M); }
static void make(mo *m)
{
	static const int sizes[] = { 1, 2, 3, 7, 8, 9, 12, 16, 17, 24, 31, 32, 40, 64, 100, 1000 };
	memset(m, 0, sizeof *m); m->size = vh_chance(4) ? vh_chance(30) ? 60000 + (int)vh_below(vh_chance(40) ? 5000000 : 400000) : 5000 + (int)vh_below(60000) : sizes[vh_below(sizeof sizes / sizeof *sizes)];
	ACCT(tagof(m), m->h = mem_create_objects(m->size)); vh_op("create %d with size %d", tagof(m), m->size);
}
static void fill(mo *m, slot *s) { unsigned char b = (unsigned char)(1 + vh_below(255)); s->pat = b; memset(s->p, b, m->size); }
static void intact(mo *m, slot *s)
{
	int i, k = m->size > 4000 && vh_chance(90) ? 97 : 1;
	for (i = 0; i < m->size; i += k) if (s->p[i] != s->pat) vh_fail("contents-changed", "memory %d: byte %d of a live object is 0x%02x, should be 0x%02x", tagof(m), i, s->p[i], s->pat);
	if (s->p[m->size - 1] != s->pat) vh_fail("contents-changed", "memory %d: the last byte of a live object changed", tagof(m));
	vh_count("live objects compared", 1);
}
typedef struct { unsigned char *p; int n; } rng;
static int cmp_rng(const void *a, const void *b) { const rng *x = a, *y = b; return x->p < y->p ? -1 : x->p > y->p; }
static void verify(void)
{
	unsigned n = 0, k = 0, i; int q; rng *r;
	for (q = 0; q < nM; q++) n += M[q].n;
	r = malloc((n + 1) * sizeof *r);
	for (q = 0; q < nM; q++) for (i = 0; i < M[q].n; i++) if (M[q].s[i].out) { intact(&M[q], &M[q].s[i]); r[k].p = M[q].s[i].p; r[k++].n = M[q].size; }
	qsort(r, k, sizeof *r, cmp_rng);
	for (i = 1; i < k; i++) VH_CHECK(r[i].p >= r[i - 1].p + r[i - 1].n, "objects-overlap", "live objects overlap: %p + %d and %p", r[i - 1].p, r[i - 1].n, r[i].p);
	free(r); vh_count("address maps checked", 1); vh_max("most objects live", k);
}
static void stats(mo *m)
{
	mem_ObjectStats s = mem_get_object_stats(m->h); char *t = NULL, *nl; size_t tn; FILE *f; int a = -1, b = -1, c = -1;
	VH_CHECK(s->total == m->total && s->used == m->used && s->reused == m->reused && s->size == m->size, "stats-wrong",
		"memory %d reports total %d used %d reused %d size %d; fresh %d out %d recycled %d size %d", tagof(m), s->total, s->used, s->reused, s->size, m->total, m->used, m->reused, m->size);
	f = open_memstream(&t, &tn); mem_print_object_stats(m->h, f); fclose(f); nl = strchr(t, '\n');
	VH_CHECK(nl && sscanf(nl + 1, " %d objects allocated, of which %d are in use %d objects have been reused", &a, &b, &c) == 3 && a == s->total && b == s->used && c == s->reused, "printed-stats", "printed \"%s\"", t);
	free(t); xfree(s); vh_count("statistics read", 1);
}
static void get(mo *m, int empty)
{
	unsigned char *p; unsigned i; int returned = m->total - m->used, al; slot *s = NULL;
	ACCT(tagof(m), p = empty ? mem_get_empty_object(m->h) : mem_get_object(m->h));
	vh_op("%d: get%s -> %p (%d returned ones waiting)", tagof(m), empty ? " empty" : "", p, returned);
	VH_CHECK(p != NULL, "null-object", "memory %d hands out NULL", tagof(m));
	al = m->size >= 16 ? 16 : m->size >= 8 ? 8 : m->size >= 4 ? 4 : 1;
	VH_CHECK((uintptr_t)p % al == 0, "misaligned", "memory %d: object of %d bytes at %p", tagof(m), m->size, p);
	for (i = 0; i < m->n; i++) if (m->s[i].p == p) { s = &m->s[i]; break; }
	if (s) {
		VH_CHECK(!s->out, "handed-out-twice", "memory %d hands out %p, which is in use", tagof(m), p);
		m->reused++; vh_count("objects recycled", 1);
	} else {
		/* "may be handed out again before new memory is used": no new memory while returned objects wait */
		VH_CHECK(returned == 0, "not-recycled", "memory %d takes new memory while %d returned objects wait", tagof(m), returned);
		if (m->n == m->cap) { m->cap = m->cap * 2 + 16; m->s = realloc(m->s, m->cap * sizeof *m->s); }
		s = &m->s[m->n++]; s->p = p; m->total++; vh_count("objects fresh", 1);
	}
	if (empty) for (i = 0; i < (unsigned)m->size; i++) VH_CHECK(p[i] == 0, "not-empty", "memory %d: byte %u of an empty object is 0x%02x", tagof(m), i, p[i]);
	if (empty) vh_count("empty objects", 1);
	s->out = 1; m->used++; fill(m, s);
}
static void put(mo *m)
{
	unsigned i, k; slot *s;
	if (!m->used) return;
	k = (unsigned)vh_below(m->n); for (i = 0; i < m->n && !m->s[k].out; i++) k = (k + 1) % m->n;
	s = &m->s[k]; intact(m, s);
	ACCT(tagof(m), mem_free_object(m->h, s->p)); s->out = 0; m->used--;
	vh_op("%d: return %p", tagof(m), s->p); vh_count("objects returned", 1);
}
/* everything out is returned and as much is taken again: no new memory is needed */
static void again(mo *m)
{
	int n = m->used, i, fresh = m->total, r; unsigned char **p; slot **s; unsigned k;
	if (!n) return;
	p = malloc(sizeof *p * (size_t)n); s = malloc(sizeof *s * (size_t)n);
	for (k = 0, i = 0; k < m->n; k++) if (m->s[k].out) { s[i] = &m->s[k]; p[i++] = m->s[k].p; }
	for (r = 0; r < 3; r++) {
		int order = (int)vh_below(3), part = r == 2 ? n : vh_chance(50) ? n : 1 + (int)vh_below(n);
		for (i = n; i-- > 1;) if (order == 2) { int j = (int)vh_below(i + 1); unsigned char *t = p[i]; p[i] = p[j]; p[j] = t; }
		if (order == 1) for (i = 0; i < part / 2; i++) { unsigned char *t = p[i]; p[i] = p[part - 1 - i]; p[part - 1 - i] = t; }
		for (i = 0; i < part; i++) ACCT(tagof(m), mem_free_object(m->h, p[i]));
		vh_op("%d: return %d of %d and take them again", tagof(m), part, n);
		if (m->used == part && vh_chance(50)) { mem_ObjectStats st = mem_get_object_stats(m->h); VH_CHECK(st->used == 0 && st->total == fresh, "stats-wrong", "with everything returned the statistics say %d of %d in use", st->used, st->total); xfree(st); }
		m->used -= part; VH_CHECK(m->total == fresh, "stats-wrong", "total");
		for (i = 0; i < part; i++) { unsigned char *q; ACCT(tagof(m), q = mem_get_object(m->h)); p[i] = q; m->used++; m->reused++; memset(q, 0x5a, (size_t)m->size); }
		{ mem_ObjectStats st = mem_get_object_stats(m->h); VH_CHECK(st->total == fresh && st->used == m->used && st->reused == m->reused, "not-recycled", "memory %d: after %d objects were returned and taken again the statistics say total %d, used %d, reused %d; they should say %d, %d, %d", tagof(m), part, st->total, st->used, st->reused, fresh, m->used, m->reused); xfree(st); }
	}
	for (k = 0; k < m->n; k++) m->s[k].out = 0;
	{ /* the same addresses as before, each once */
		rng *a = malloc(sizeof *a * (size_t)n), *b = malloc(sizeof *b * (m->n + 1));
		for (i = 0; i < n; i++) a[i].p = p[i];
		for (k = 0; k < m->n; k++) { b[k].p = m->s[k].p; b[k].n = (int)k; }
		qsort(a, (size_t)n, sizeof *a, cmp_rng); qsort(b, m->n, sizeof *b, cmp_rng);
		for (i = 0, k = 0; i < n; i++) {
			while (k < m->n && b[k].p < a[i].p) k++;
			VH_CHECK(k < m->n && b[k].p == a[i].p, "not-recycled", "memory %d takes new memory while returned objects wait", tagof(m));
			VH_CHECK(!m->s[b[k].n].out, "handed-out-twice", "memory %d hands out %p twice", tagof(m), a[i].p);
			m->s[b[k].n].out = 1; fill(m, &m->s[b[k].n]);
		}
		free(a); free(b);
	}
	free(p); free(s); vh_count("memories emptied and filled again", 1); vh_max("most objects returned and taken again", (uint64_t)n);
}
static void kill_mo(mo *m)
{
	long others[256]; int q, t = tagof(m);
	verify(); stats(m); memcpy(others, acct_live, sizeof others);
	ACCT(100, mem_destroy_objects(m->h)); vh_op("destroy %d (%d out of %d out)", t, m->used, m->total);
	VH_CHECK(acct_live[t] == 0, "storage-kept", "memory %d: %ld blocks still allocated after it was destroyed", t, acct_live[t]);
	for (q = 0; q < nM; q++) if (1 + q != t) VH_CHECK(acct_live[1 + q] == others[1 + q], "foreign-storage", "destroying memory %d changed memory %d: %ld blocks, before %ld", t, 1 + q, acct_live[1 + q], others[1 + q]);
	free(m->s); m->s = NULL; m->n = 0; vh_count("destructions", 1);
}
void vh_case(uint64_t idx)
{
	unsigned k, ops = 30 + (unsigned)vh_below(idx % 50 == 7 ? 5000 : vh_chance(5) ? 3000 : 300), bias = 60, dead = 0, re = 0; int q; uint64_t h = 0;
	nM = 1 + (int)vh_below(4); acct_reset();
	for (q = 0; q < nM; q++) { make(&M[q]); }
	if (idx % 50 == 9) { mo *m = &M[0]; int n = 200 + (int)vh_below(5000); if (m->size < 200) { while (n--) { unsigned char *p; ACCT(tagof(m), p = mem_get_object(m->h)); if (m->n == m->cap) { m->cap = m->cap * 2 + 16; m->s = realloc(m->s, m->cap * sizeof *m->s); } m->s[m->n].p = p; m->s[m->n].out = 1; m->total++; m->used++; fill(m, &m->s[m->n++]); } verify(); again(m); ops /= 4; } }
	for (k = 0; k < ops; k++) {
		mo *m = &M[vh_below(nM)]; int w = (int)vh_below(100);
		if (k % 40 == 0) bias = idx % 50 == 7 ? 80 : vh_chance(50) ? 62 : 30;
		h = vh_mix(h, w);
		if (m->size > 60000 && (m->used >= 6 ? w < (int)bias : vh_chance(50))) { if (m->size > 1000000 && m->n > 40) continue; if (m->used) put(m); get(m, vh_chance(60)); vh_count("very large objects", 1); }
		else if (w < (int)bias) get(m, vh_chance(40));
		else if (w < 90) put(m);
		else if (w < 95) stats(m);
		else if (w < 96) { if (vh_chance(50)) again(m); else { int n = m->used; while (n--) put(m); } }
		else if (w < 97) { kill_mo(m); make(m); dead++; }
		else if (k % 4 == 0) verify();
		re += m->reused;
	}
	verify();
	for (q = nM - 1; q >= 0; q--) { vh_digest((uint64_t)M[q].total * 1000003 + (uint64_t)M[q].used); kill_mo(&M[q]); nM--; }
	vh_digest(h);
	if (re && dead) vh_nontrivial();
	if (idx < 2) vh_sample("%u operations over object memories, %u destroyed midway, recycling %s", ops, dead, re ? "seen" : "not seen");
}
