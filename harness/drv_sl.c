/* C08: skip lists */
#include "vh.h"
/* the source of random levels is ours (random is wrapped) */
static int rmode; static uint64_t rcalls; static unsigned rstate;
long __wrap_random(void)
{
	rcalls++;
	switch (rmode) {
	case 0: return (long)(vh_u64() & 0x7fffffff);
	case 1: return 0;
	case 2: return 0x7fffffff;
	case 3: rstate++; return rstate & 1 ? 0x7fffffff : 0;
	case 4: rstate++; return rstate % 17 ? 0x7fffffff : 0;
	default: return vh_chance(93) ? 0x7fffffff : 0;
	}
}
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }

typedef struct { int64_t key; char text[24]; int tag; } rec;
enum { K_REC, K_STR, K_PTR, K_REV, K_INT, K_NK };
static int cmp_i(const void *a, const void *b) { int64_t x = *(const int64_t *)a, y = *(const int64_t *)b; return x < y ? -1 : x > y; }
static int cmp_big(const void *a, const void *b) { int64_t x = *(const int64_t *)a, y = *(const int64_t *)b; return x < y ? -70000 : x > y ? 70000 : 0; }
/* only the sign of a comparison's result counts */
static int cmp_any(const void *a, const void *b) { static const int v[] = { 1, 2, 128, 256, 32768, 65536, 1 << 24, 0x7fff0000, INT_MAX, 255, 65535, 0x10000 * 3 }; static unsigned c; int r = cmp_i(a, b); return r * v[c++ % 12]; }
static int cmp_rev(const void *a, const void *b) { return cmp_i(b, a); }
static int cmp_s(const void *a, const void *b) { int r = strcmp(a, b); return r < 0 ? -1 : r > 0; }
static int cmp_p(const void *a, const void *b) { uintptr_t x = (uintptr_t)a, y = (uintptr_t)b; return x < y ? -1 : x > y; }
static const void *key_rec(const void *d) { return &((const rec *)d)->key; }
static const void *key_int(const void *d) { return (const void *)(intptr_t)((const rec *)d)->key; }   /* the key is a number, 0 among them */
static int cmp_n(const void *a, const void *b) { intptr_t x = (intptr_t)a, y = (intptr_t)b; return x < y ? -1 : x > y; }
static const void *key_str(const void *d) { return ((const rec *)d)->text; }
static const char *print_rec(const void *d) { static char b[64]; snprintf(b, sizeof b, "rec<%lld>", (long long)((const rec *)d)->key); return b; }

typedef struct { sl_List l; int kind; unsigned n; rec *r, *alias; const void **in; unsigned count; const void **order; } sm;
static unsigned owner(sm *m, const void *d)
{
	if (m->kind == K_PTR) { uintptr_t p = (uintptr_t)d; return (unsigned)((p >> 3) - 1); }
	return (unsigned)((const rec *)d >= m->r && (const rec *)d < m->r + m->n ? (const rec *)d - m->r : (const rec *)d >= m->alias && (const rec *)d < m->alias + m->n ? (const rec *)d - m->alias : m->n);
}
/* keys ascend with the index, except for K_REV where they descend */
static const void *datum(sm *m, unsigned i) { return m->kind == K_PTR ? (const void *)(uintptr_t)((i + 1) << 3) : vh_chance(50) ? (const void *)&m->r[i] : (const void *)&m->alias[i]; }
static const void *keyof(sm *m, unsigned i) { const void *d = datum(m, i); return m->kind == K_PTR ? d : m->kind == K_STR ? (const void *)((const rec *)d)->text : m->kind == K_INT ? key_int(d) : (const void *)&((const rec *)d)->key; }
static void find(sm *m, unsigned i)
{
	const void *k = keyof(m, i), *r; void *s = NULL;
	if (m->kind == K_INT && !k) vh_count("look-ups of the key 0", 1);
	if (m->kind != K_PTR && m->kind != K_INT && vh_chance(30)) s = m->kind == K_STR ? vh_same(k, strlen(k) + 1) : vh_same_aligned(k, sizeof(int64_t));
	r = sl_find(m->l, s ? s : k);
	VH_CHECK(r == m->in[i], "find-wrong", "look-up of key %u gives %p, should be %p (%u data, random mode %d)", i, r, m->in[i], m->count, rmode);
	vh_count("look-ups", 1);
}
static void ins(sm *m, unsigned i) { const void *d = datum(m, i); sl_insert(m->l, d); vh_op("insert %u", i); m->in[i] = d; m->count++; vh_count("insertions", 1); find(m, i); }
static void del(sm *m, unsigned i) { const void *d = datum(m, i); sl_delete(m->l, d); vh_op("delete %u", i); m->in[i] = NULL; m->count--; vh_count("deletions", 1); find(m, i); }

typedef struct { sm *m; const void **expect; unsigned n, k; long stop; int ret, mutate, depth; int cookie, fn; void *arg; } itst;
static int nest; static itst *ci; static uint64_t mutations;
static void walk(sm *m, int depth, int mutate);
static int step(itst *s, const void *d)
{
	VH_CHECK(s->k < s->n, "iteration-extra", "iteration presents more than %u data", s->n);
	VH_CHECK(d == s->expect[s->k], "iteration-wrong", "iteration presents key %u as number %u, should be key %u", owner(s->m, d), s->k, owner(s->m, s->expect[s->k]));
	s->k++;
	if (s->mutate && vh_chance(40)) {
		unsigned q = vh_chance(50) ? owner(s->m, d) : vh_below(s->m->n);
		if (s->m->in[q]) del(s->m, q); else ins(s->m, q);
		mutations++;
	}
	if (s->depth < 2 && nest > 0 && s->n < 400 && vh_chance(3)) {
		nest--; itst *save = ci; walk(s->m, s->depth + 1, 0); ci = save; }
	return s->stop >= 0 && (long)s->k > s->stop ? s->ret : 0;
}
static void mine(int fn) { if (ci->fn != fn) vh_fail("other-callback", "the callback of another iteration was called"); }
static int cb(const void *d) { mine(0); return step(ci, d); }
static int cb2(const void *d) { mine(1); return step(ci, d); }
static int cba2(const void *d, void *a) { if (a != ci->arg) vh_fail("argument-lost", "the callback got %p instead of its argument", a); mine(1); return step(ci, d); }
static int cba(const void *d, void *a) { if (a != ci->arg) vh_fail("argument-lost", "the callback got %p instead of its argument", a); mine(0); return step(ci, d); }
static void walk(sm *m, int depth, int mutate)
{
	itst s; unsigned i; int r;
	memset(&s, 0, sizeof s);
	s.m = m; s.expect = malloc(sizeof(void *) * (m->n + 1)); s.mutate = mutate; s.depth = depth;
	if (m->kind == K_REV) { for (i = m->n; i-- > 0;) if (m->in[i]) s.expect[s.n++] = m->in[i]; }
	else for (i = 0; i < m->n; i++) if (m->in[i]) s.expect[s.n++] = m->in[i];
	s.stop = vh_chance(30) ? (long)vh_below(s.n + 2) : -1;
	{ static const int v[] = { 1, -1, 42, 256, INT_MIN, INT_MAX }; s.ret = v[vh_below(6)]; }
	ci = &s; s.fn = (int)vh_below(2);
	r = vh_chance(50) ? sl_iterate(m->l, s.fn ? cb2 : cb) : sl_iterate_arg(m->l, s.fn ? cba2 : cba, s.arg = vh_chance(25) ? NULL : (void *)&s.cookie);
	if (s.stop >= 0 && s.stop < (long)s.n) { VH_CHECK(r == s.ret, "stop-result", "iteration stopped with %d returned %d", s.ret, r); VH_CHECK(s.k == (unsigned)s.stop + 1, "stop-late", "iteration went on after its stop"); }
	else { VH_CHECK(r == 0, "complete-result", "complete iteration returned %d", r); VH_CHECK(s.k == s.n, "iteration-short", "iteration presents %u of %u data", s.k, s.n); }
	vh_count(mutate ? "iterations with mutating callback" : "iterations", 1);
	free(s.expect);
}
struct bad { sm *m; unsigned i; int op; };
static void do_bad(void *v) { struct bad *b = v; if (b->op) sl_insert(b->m->l, datum(b->m, b->i)); else sl_delete(b->m->l, datum(b->m, b->i)); }
static void make(sm *m, unsigned n)
{
	unsigned i; memset(m, 0, sizeof *m);
	m->kind = (int)vh_below(K_NK); m->n = n;
	m->r = calloc(n + 1, sizeof(rec)); m->alias = calloc(n + 1, sizeof(rec)); m->in = calloc(n + 1, sizeof(void *));
	int64_t base = m->kind == K_INT ? -(int64_t)vh_below(n) * 2 : vh_chance(30) ? INT64_MIN : vh_chance(30) ? INT64_MAX - n * 2 : -(int64_t)n;
	for (i = 0; i < n; i++) { m->r[i].key = m->alias[i].key = base + 2 * i; snprintf(m->r[i].text, 24, "%c%07u", 'a' + (int)(i / 5000), i); strcpy(m->alias[i].text, m->r[i].text); }
	const char *(*pr)(const void *) = m->kind == K_PTR || vh_chance(50) ? NULL : print_rec;
	switch (m->kind) {
	case K_REC: m->l = sl_create(vh_chance(30) ? cmp_i : vh_chance(30) ? cmp_big : cmp_any, vh_chance(70) ? key_rec : NULL, pr); break;   /* the key is the first member */
	case K_STR: m->l = sl_create(vh_chance(50) ? cmp_s : (int (*)(const void *, const void *))hsh_string_compare, key_str, pr); break;
	case K_PTR: m->l = sl_create(vh_chance(50) ? cmp_p : hsh_pointer_compare, NULL, pr); break;
	case K_INT: m->l = sl_create(cmp_n, key_int, pr); break;
	case K_REV: m->l = sl_create(cmp_rev, key_rec, pr); break;
	}
	vh_op("create list kind %d with %u keys", m->kind, n);
}
static void misuse(sm *m, unsigned q)
{
	struct bad b; vh_result r; b.m = m; b.i = q; b.op = m->in[q] != NULL;
	vh_op("%s", b.op ? "insert a present key" : "delete an absent key");
	vh_child(&r, do_bad, &b);
	if (vh_is_sanitizer(&r)) vh_fail("misuse-memory-error", "%.1500s", r.err);
	VH_CHECK(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT && r.errlen > 0, "not-diagnosed", "%s (%u data): status %x, stderr \"%.200s\"", b.op ? "inserting a present key" : "deleting an absent key", m->count, r.status, r.err);
	vh_count(b.op ? "insertions of a present key" : "deletions of an absent key", 1); vh_max("most data at a refused operation", m->count);
	vh_result_free(&r);
}
void vh_case(uint64_t idx)
{
	sm S[3]; int n = 1 + (int)vh_below(3), i; unsigned k, ops, j;
	static const unsigned sz[] = { 1, 2, 5, 20, 80, 300 };
	rmode = (int)vh_below(6); rstate = 0; mutations = 0;
	int emptied = 0, maxc = 0;
	for (i = 0; i < n; i++) { j = sz[vh_below(6)]; if (idx % 80 == 5) j = rmode ? 900 : vh_thorough ? 40000 : 8000; make(&S[i], j); }
	ops = 60 + vh_below(500);
	if (S[0].n > 1000) { /* bulk in some order */
		int ord = (int)vh_below(3);
		for (j = 0; j < S[0].n; j++) { unsigned q = ord == 0 ? j : ord == 1 ? S[0].n - 1 - j : (unsigned)((j * 7919ULL) % S[0].n); if (!S[0].in[q]) ins(&S[0], q); }
		for (j = 0; j < S[0].n; j += 3) if (S[0].in[j]) del(&S[0], j);
		for (j = 0; j < S[0].n; j++) find(&S[0], j);
		maxc = S[0].n;
		for (j = 0; j < 4; j++) misuse(&S[0], vh_chance(20) ? (j & 1 ? S[0].n - 1 : 0) : vh_below(S[0].n));
	}
	int bias = 60;
	for (k = 0; k < ops; k++) {
		sm *m = &S[vh_below(n)]; unsigned q = vh_below(m->n); int w = (int)vh_below(100);
		if (k % 50 == 0) bias = vh_chance(50) ? 75 : 25;
		if (k % 40 == 0 && vh_chance(30)) rmode = (int)vh_below(6);
		if (w < 70) { if (vh_chance(bias)) { if (!m->in[q]) ins(m, q); } else if (m->in[q]) { del(m, q); if (!m->count) emptied++; } else find(m, q); }
		else if (w < 90) find(m, q);
		else if (w < 94) { nest = 8; if (m->n < 400 || vh_chance(5)) walk(m, 0, 0); }
		else if (w < 97) { nest = 8; if (m->n < 400) walk(m, 0, 1); }
		else if (w < 98) { if (m->n < 400) for (j = 0; j < m->n; j++) if (m->in[j]) del(m, j); emptied++; VH_CHECK(m->n >= 400 || sl_iterate(m->l, cb) == 0, "empty-iteration", "iteration over an empty list"); }
		else if (idx % 10 == 3 && vh_chance(20)) misuse(m, q);
		if ((int)m->count > maxc) maxc = (int)m->count;
	}
	for (i = 0; i < n; i++) { walk(&S[i], 0, 0); for (j = 0; j < S[i].n; j++) find(&S[i], j); vh_digest(S[i].kind * 1000003 + S[i].count); for (j = 0; j < S[i].n; j++) if (S[i].in[j]) vh_digest(j); }
	vh_count("mutations inside an iteration", mutations); vh_max("most data in a list", maxc); vh_count("random numbers drawn", rcalls); rcalls = 0;
	if (mutations && maxc > 4) vh_nontrivial();
	if (idx < 2) vh_sample("%d lists (first kind %d, %u keys), %u operations, random mode %d, %llu mutations inside iterations, peak %d data", n, S[0].kind, S[0].n, ops, rmode, (unsigned long long)mutations, maxc);
	VH_CHECK(sl_iterate(NULL, cb) == 0, "null-iteration", "iteration over no list");
	while (n) { i = (int)vh_below(n); sl_destroy(S[i].l); free(S[i].r); free(S[i].alias); free(S[i].in); S[i] = S[--n]; for (i = 0; i < n; i++) if (S[i].n < 400) walk(&S[i], 0, 0); }
	_sl_shutdown();
}
