/* C09: string pools */
#include "vh.h"
typedef struct { char *s; unsigned len; } content;
static content *C; static unsigned nC, capC;
typedef struct { const char *p; unsigned i; } stored;
typedef struct {
	int global, live; str_Pool p;
	const char **in; unsigned cap, nin;             /* by content index */
	stored *cp; unsigned ncp, capcp;                /* copies */
	long clo, chi, blo, bhi, rlo, rhi, mlo, mhi;    /* statistics: bounds */
} pool;
static pool P[4]; static int nP;

void vh_setup(int argc, char **argv) { (void)argc; (void)argv; maa_init("/usr/bin/strings-monitor"); }
static unsigned add_content(const char *s, unsigned n)
{
	if (nC == capC) { capC = capC * 2 + 64; C = realloc(C, capC * sizeof *C); }
	C[nC].s = malloc(n + 1); memcpy(C[nC].s, s, n); C[nC].s[n] = 0; C[nC].len = n;
	return nC++;
}
static int find_content(const char *s) { unsigned i; size_t n = strlen(s); for (i = 0; i < nC; i++) if (C[i].len == n && !memcmp(C[i].s, s, n)) return (int)i; return -1; }
static unsigned content_of(const char *s) { int i = find_content(s); return i >= 0 ? (unsigned)i : add_content(s, (unsigned)strlen(s)); }
static void room(pool *m) { if (m->cap < nC) { unsigned k, c = nC * 2; m->in = realloc(m->in, c * sizeof *m->in); for (k = m->cap; k < c; k++) m->in[k] = NULL; m->cap = c; } }
static void fresh(pool *m) { free(m->in); free(m->cp); int g = m->global; memset(m, 0, sizeof *m); m->global = g; m->live = 1; room(m); }
/* the caller's buffer: exact size, spoiled and released right after the call */
static char *buf_in(const char *s, unsigned n) { return vh_arg(s, n); }
static void buf_out(char *b, unsigned n) { memset(b, 0xA5, n); vh_unarg(b); }
static const char *name(pool *m) { static char b[4][16]; static int k; char *r = b[k++ & 3]; snprintf(r, 16, m->global ? "global" : "pool%d", (int)(m - P)); return r; }

static void verify_one(pool *m, const char *p, unsigned i, const char *what)
{
	if (memcmp(p, C[i].s, C[i].len + 1)) vh_fail("content-changed", "%s string of %s is \"%s\", should be \"%s\"", what, name(m), vh_quote(p, strnlen(p, C[i].len + 8)), vh_quote(C[i].s, C[i].len));
	vh_count("oracle checks", 1);
}
static void intern(pool *m, unsigned i, const char *r, const char *how)
{
	room(m);
	VH_CHECK(r != NULL, "null-string", "%s returned NULL", how);
	if (m->in[i]) VH_CHECK(r == m->in[i], "pointer-differs", "%s of \"%s\" in %s gives %p, interned at %p", how, vh_quote(C[i].s, C[i].len), name(m), r, m->in[i]);
	else {
		unsigned k;
		if (m->nin < 300) for (k = 0; k < nC && k < m->cap; k++) VH_CHECK(m->in[k] != r, "pointer-shared", "%s of \"%s\" gives the pointer of \"%s\"", how, vh_quote(C[i].s, C[i].len), vh_quote(C[k].s, C[k].len));
		for (k = 0; k < m->ncp && k < 300; k++) VH_CHECK(m->cp[k].p != r, "copy-interned", "%s of \"%s\" gives the pointer of a copy", how, vh_quote(C[i].s, C[i].len));
		m->in[i] = r; m->nin++;
	}
	verify_one(m, r, i, how);
	vh_count("strings interned or found", 1);
}
static void do_find(pool *m, unsigned i)
{
	char *b = buf_in(C[i].s, C[i].len + 1); const char *r; int new;
	room(m); new = !m->in[i];
	r = m->global ? str_find(b) : str_pool_find(m->p, b);
	vh_op("%s find \"%s\" -> %p%s", name(m), vh_quote(C[i].s, C[i].len), r, new ? " (new)" : "");
	if (new && r == b) vh_fail("caller-buffer-kept", "find returned the caller's buffer");
	buf_out(b, C[i].len + 1);
	m->rlo++; m->rhi++; if (new) { m->mlo++; m->mhi++; m->clo++; m->chi++; m->blo += C[i].len + 1; m->bhi += C[i].len + 1; }
	intern(m, i, r, "find");
}
static void do_findn(pool *m, unsigned i)
{
	char *b = buf_in(C[i].s, C[i].len); const char *r; int new;
	room(m); new = !m->in[i];
	r = str_findn(b, (int)C[i].len);
	vh_op("global findn \"%s\" -> %p", vh_quote(C[i].s, C[i].len), r);
	buf_out(b, C[i].len);
	m->rlo++; m->rhi++; if (new) { m->mlo++; m->mhi++; m->clo++; m->chi++; m->blo += C[i].len + 1; m->bhi += C[i].len + 1; }
	intern(m, i, r, "findn"); vh_count("finds by length", 1);
}
static void do_exists(pool *m, unsigned i)
{
	char *b = buf_in(C[i].s, C[i].len + 1); int r;
	room(m);
	r = m->global ? str_exists(b) : str_pool_exists(m->p, b);
	buf_out(b, C[i].len + 1);
	VH_CHECK(!!r == !!m->in[i], "existence-wrong", "existence of \"%s\" in %s is %d", vh_quote(C[i].s, C[i].len), name(m), r);
	m->rlo++; m->rhi++; if (!m->in[i]) { m->mlo++; m->mhi++; }
	vh_count("existence tests", 1);
}
static void do_copy(pool *m, unsigned i, int byn)
{
	unsigned x = byn && vh_chance(10), n = byn && !x ? C[i].len : C[i].len + 1; char *b = buf_in(C[i].s, n); const char *r;   /* x: the copy includes the terminator */
	room(m);
	if (byn) r = m->global ? str_copyn(b, (int)n) : str_pool_copyn(m->p, b, (int)n);
	else r = m->global ? str_copy(b) : str_pool_copy(m->p, b);
	vh_op("%s copy%s \"%s\" -> %p", name(m), byn ? "n" : "", vh_quote(C[i].s, C[i].len), r);
	buf_out(b, n);
	VH_CHECK(r && r != m->in[i], "copy-wrong", "copy of \"%s\" is %p, interned %p", vh_quote(C[i].s, C[i].len), r, m->in[i]);
	if (m->ncp == m->capcp) { m->capcp = m->capcp * 2 + 16; m->cp = realloc(m->cp, m->capcp * sizeof *m->cp); }
	m->cp[m->ncp].p = r; m->cp[m->ncp++].i = i;
	verify_one(m, r, i, "copied");
	if (x) VH_CHECK(!r[n], "copy-unterminated", "a copy of %u bytes with its terminator is followed by 0x%x", n, r[n] & 255);
	if (x) vh_count("copies with the terminator", 1);
	m->clo++; m->chi++; m->blo += C[i].len + 1 + x; m->bhi += C[i].len + 1 + x; vh_count("copies", 1);
}
static void do_grow(pool *m, unsigned i)
{
	unsigned at = 0, pieces = 0; const char *r; int new;
	room(m); new = !m->in[i];
	while (at < C[i].len || (pieces < 3 && vh_chance(30))) {
		unsigned n = C[i].len - at, k = vh_chance(20) ? 0 : vh_chance(15) ? n : (unsigned)vh_below(n + 1); char *b;
		if (pieces > 40) k = n;
		b = buf_in(C[i].s + at, k);
		if (m->global) str_grow(b, (int)k); else str_pool_grow(m->p, b, (int)k);
		buf_out(b, k); at += k; pieces++;
		if (k == 0) vh_count("empty pieces", 1);
	}
	r = m->global ? str_finish() : str_pool_finish(m->p);
	vh_op("%s grow \"%s\" in %u pieces -> %p", name(m), vh_quote(C[i].s, C[i].len), pieces, r);
	m->rhi++; if (new) m->mhi++;
	if (new) { m->clo++; m->chi++; m->blo += C[i].len + 1; m->bhi += C[i].len + 1; }
	else { m->chi++; m->bhi += C[i].len + 1; }
	intern(m, i, r, "finish"); vh_count("strings grown in pieces", 1);
}
static void grown(pool *m, unsigned i, const char *r)
{
	int new; room(m); new = !m->in[i];
	m->rhi++; if (new) m->mhi++;
	m->chi++; m->bhi += C[i].len + 1;
	if (new) { m->clo++; m->blo += C[i].len + 1; }
	intern(m, i, r, "finish");
}
/* strings grown in several pools at the same time, and look-ups in the pools where none is grown */
static void do_grow_together(unsigned i)
{
	struct { int on; unsigned c, at, pieces; } g[4]; int q, left = 0, even = vh_chance(60), free_one = vh_chance(40) ? (int)vh_below(nP) : -1, differ = vh_chance(60);
	for (q = 0; q < nP; q++) { g[q].on = P[q].live && q != free_one; g[q].c = differ ? (unsigned)vh_below(nC) : i; g[q].at = g[q].pieces = 0; left += g[q].on; }
	if (left < 2) return;
	vh_op("strings grown in %d pools at the same time", left); vh_count("pools with strings grown at the same time", left);
	while (left) {
		unsigned step = 1 + (unsigned)vh_below(9); int who = (int)vh_below(nP);
		for (q = 0; q < nP; q++) {
			pool *m = &P[q]; content *c = &C[g[q].c]; unsigned k; char *b; const char *r;
			if (!g[q].on || (!even && q != who)) continue;
			if (g[q].at < c->len || (!g[q].pieces && vh_chance(50))) {
				k = c->len - g[q].at; if (k > step && g[q].pieces < 30) k = step;
				b = buf_in(c->s + g[q].at, k);
				if (m->global) str_grow(b, (int)k); else str_pool_grow(m->p, b, (int)k);
				buf_out(b, k); g[q].at += k; g[q].pieces++;
			} else { r = m->global ? str_finish() : str_pool_finish(m->p); g[q].on = 0; left--; grown(m, g[q].c, r); }
		}
		if (free_one >= 0 && P[free_one].live && vh_chance(20)) do_find(&P[free_one], (unsigned)vh_below(nC));
	}
}
static void do_unique(pool *m, unsigned i)
{
	char *b = buf_in(C[i].s, C[i].len + 1); const char *r = str_unique(b); int k; unsigned j; size_t n;
	buf_out(b, C[i].len + 1);
	n = strlen(r);
	vh_op("unique \"%s\" -> \"%s\"", vh_quote(C[i].s, C[i].len), vh_quote(r, n));
	VH_CHECK(n >= C[i].len && !memcmp(r, C[i].s, C[i].len), "unique-prefix", "unique string \"%s\" has not the prefix \"%s\"", vh_quote(r, n), vh_quote(C[i].s, C[i].len));
	k = find_content(r);
	if (k >= 0) { room(m); VH_CHECK(!m->in[k], "unique-not-new", "unique string \"%s\" was in the pool", vh_quote(r, n)); }
	j = content_of(r); room(m);
	m->clo++; m->chi++; m->blo += n + 1; m->bhi += n + 1;
	m->rlo += 1; m->rhi += 1000000; m->mlo += 1; m->mhi += 1000000;
	intern(m, j, r, "unique"); vh_count("unique strings", 1);
	/* what might come next is interned beforehand */
	if (vh_chance(60)) {
		const char *d = r + C[i].len; char *e; unsigned long v = strtoul(d, &e, 10); int q;
		if (e != d && !*e) for (q = 1; q <= 3; q++) { char *t = malloc(n + 30); memcpy(t, r, C[i].len); sprintf(t + C[i].len, "%lu", v + q); j = content_of(t); free(t); if (vh_chance(80)) do_find(m, j); }
	}
}
static void verify_all(pool *m)
{
	unsigned i;
	if (!m->live) return;
	room(m);
	for (i = 0; i < nC; i++) if (m->in[i]) verify_one(m, m->in[i], i, "interned");
	for (i = 0; i < m->ncp; i++) verify_one(m, m->cp[i].p, m->cp[i].i, "copied");
	vh_count("complete content comparisons", 1);
}
typedef struct { const char *p; unsigned n; } rng;
static int cmp_rng(const void *a, const void *b) { const rng *x = a, *y = b; return x->p < y->p ? -1 : x->p > y->p; }
static void verify_disjoint(void)
{
	rng *r; unsigned k = 0, n = 0, i; int q;
	for (q = 0; q < nP; q++) if (P[q].live) n += P[q].nin + P[q].ncp;
	r = malloc((n + 1) * sizeof *r);
	for (q = 0; q < nP; q++) if (P[q].live) {
		room(&P[q]);
		for (i = 0; i < nC; i++) if (P[q].in[i]) { r[k].p = P[q].in[i]; r[k++].n = C[i].len + 1; }
		for (i = 0; i < P[q].ncp; i++) { r[k].p = P[q].cp[i].p; r[k++].n = C[P[q].cp[i].i].len + 1; }
	}
	qsort(r, k, sizeof *r, cmp_rng);
	for (i = 1; i < k; i++) VH_CHECK(r[i].p >= r[i - 1].p + r[i - 1].n, "strings-overlap", "two live strings overlap: \"%s\" and \"%s\"", r[i - 1].p, r[i].p);
	free(r); vh_count("address maps checked", 1);
}
static void check_stats(pool *m)
{
	str_Stats s = m->global ? str_get_stats() : str_pool_get_stats(m->p);
	char *t = NULL; size_t tn; FILE *f; int c = -1, b = -1, r = -1, h = -1, x = -1; char *nl;
	vh_op("%s stats: %d strings %d bytes %d/%d/%d", name(m), s->count, s->bytes, s->retrievals, s->hits, s->misses);
	VH_CHECK(s->count >= m->clo && s->count <= m->chi, "stats-count", "%s: %d strings reported, %ld..%ld stored", name(m), s->count, m->clo, m->chi);
	VH_CHECK(s->bytes >= m->blo && s->bytes <= m->bhi, "stats-bytes", "%s: %d bytes reported, %ld..%ld stored", name(m), s->bytes, m->blo, m->bhi);
	VH_CHECK(s->retrievals >= m->rlo && s->retrievals <= m->rhi, "stats-retrievals", "%s: %d retrievals reported, %ld..%ld made", name(m), s->retrievals, m->rlo, m->rhi);
	VH_CHECK(s->misses >= m->mlo && s->misses <= m->mhi, "stats-misses", "%s: %d misses reported, %ld..%ld made", name(m), s->misses, m->mlo, m->mhi);
	VH_CHECK(s->hits >= 0 && s->hits <= s->retrievals - s->misses, "stats-hits", "%s: %d hits, %d retrievals, %d misses", name(m), s->hits, s->retrievals, s->misses);
	f = open_memstream(&t, &tn);
	if (m->global) str_print_stats(f); else str_pool_print_stats(m->p, f);
	fclose(f);
	nl = strchr(t, '\n');
	VH_CHECK(nl && sscanf(nl + 1, " %d strings using %d bytes %d retrievals (%d from top, %d failed)", &c, &b, &r, &h, &x) == 5 && c == s->count && b == s->bytes && r == s->retrievals && h == s->hits && x == s->misses,
		"printed-stats", "printed \"%s\", reported %d %d %d %d %d", t, s->count, s->bytes, s->retrievals, s->hits, s->misses);
	free(t); xfree(s); vh_count("statistics read", 1);
}
/* immediately repeated look-ups are hits */
static void check_hit(pool *m, unsigned i)
{
	str_Stats a, b;
	do_find(m, i); a = m->global ? str_get_stats() : str_pool_get_stats(m->p);
	do_exists(m, i); b = m->global ? str_get_stats() : str_pool_get_stats(m->p);
	VH_CHECK(b->hits == a->hits + 1 && b->retrievals == a->retrievals + 1 && b->misses == a->misses, "repeat-not-hit", "repeated look-up: %d/%d/%d then %d/%d/%d", a->retrievals, a->hits, a->misses, b->retrievals, b->hits, b->misses);
	xfree(a); xfree(b);
}
/* walks */
static pool *wm; static unsigned wseen, wstop; static unsigned *wcnt; static void *warg; static int wfn, wdepth; static pool *wopen[3];
static void do_walk(pool *m);
static int wvisit(const char *s)
{
	int i = find_content(s);
	if (i < 0 || (unsigned)i >= wm->cap || !wm->in[i]) vh_fail("walk-foreign", "walk of %s presents \"%s\", which is not interned", name(wm), vh_quote(s, strlen(s)));
	VH_CHECK(wm->in[i] == s, "walk-pointer", "walk of %s presents \"%s\" at %p, interned at %p", name(wm), vh_quote(s, strlen(s)), s, wm->in[i]);
	VH_CHECK(wcnt[i]++ == 0, "walk-twice", "walk of %s presents \"%s\" twice", name(wm), vh_quote(s, strlen(s)));
	wseen++;
	if (vh_chance(20)) do_exists(wm, (unsigned)vh_below(nC));
	if (vh_chance(10)) do_find(wm, (unsigned)i);
	if (wdepth < 2 && vh_chance(2)) {   /* a walk over another pool within a walk */
		pool *o = &P[vh_below(nP)], *m = wm; unsigned a = wseen, b = wstop, *c = wcnt; void *d = warg; int e = wfn;
		if (o->live && !o->global && o != wopen[0] && (wdepth < 1 || o != wopen[1])) { wopen[wdepth++] = m; if (o != m) { do_walk(o); vh_count("walks within walks", 1); } wdepth--; wopen[wdepth] = NULL; }
		wm = m; wseen = a; wstop = b; wcnt = c; warg = d; wfn = e;
	}
	vh_count("strings presented by walks", 1);
	static const int vals[] = { 1, -1, 2, 256, INT_MIN, INT_MAX, 65536, 0x1000000 };
	return wseen == wstop ? vals[vh_below(8)] : 0;
}
static void mine(int fn) { VH_CHECK(fn == wfn, "walk-callback", "the callback of another walk was called"); }
static int wvisit0(const char *s) { mine(0); return wvisit(s); }
static int wvisit1(const char *s) { mine(1); return wvisit(s); }
static int wvisit_arg0(const char *s, void *a) { VH_CHECK(a == warg, "walk-argument", "callback argument %p instead of %p", a, warg); mine(0); return wvisit(s); }
static int wvisit_arg1(const char *s, void *a) { VH_CHECK(a == warg, "walk-argument", "callback argument %p instead of %p", a, warg); mine(1); return wvisit(s); }
static void do_walk(pool *m)
{
	int how = (int)vh_below(3), r = 0, stop = 0; unsigned present = m->nin;
	wm = m; wseen = 0; wstop = vh_chance(50) && m->nin ? 1 + (unsigned)vh_below(m->nin) : 0; wcnt = calloc(nC + 1, sizeof *wcnt); warg = vh_chance(25) ? NULL : wcnt; wfn = (int)vh_below(2); int fn = wfn;
	if (how == 0) r = str_pool_iterate(m->p, fn ? wvisit1 : wvisit0);
	else if (how == 1) r = str_pool_iterate_arg(m->p, fn ? wvisit_arg1 : wvisit_arg0, warg);
	else {
		str_Position pos; const char *k;
		STR_ITERATE(m->p, pos, k) { if (wvisit(k)) { stop = 1; break; } }
		if (stop || vh_chance(30)) { STR_ITERATE_END(m->p); }
		r = stop;
	}
	vh_op("%s walk %d stop %u saw %u", name(m), how, wstop, wseen);
	VH_CHECK(!!r == !!wstop, "walk-result", "walk %d of %s gives %d, stop asked at %u of %u", how, name(m), r, wstop, present);
	VH_CHECK(wseen == (wstop ? wstop : present), "walk-incomplete", "walk %d of %s presents %u of %u strings", how, name(m), wseen, present);
	free(wcnt); wcnt = NULL; vh_count("walks", 1); if (wstop) vh_count("walks stopped early", 1);
	/* the pool must accept new strings now */
	{ unsigned i; for (i = 0; i < nC; i++) { room(m); if (!m->in[i]) { if (vh_chance(50)) do_find(m, i); else do_grow(m, i); vh_count("new strings after a walk", 1); break; } } }
}
static void kill_pool(pool *m)
{
	verify_all(m);
	if (m->global) str_destroy(); else str_pool_destroy(m->p);
	vh_op("%s destroyed", name(m)); vh_count("pools destroyed", 1);
	m->live = 0;
}
static void make_contents(void)
{
	unsigned n = vh_chance(8) ? 400 + (unsigned)vh_below(vh_thorough ? 4000 : 1500) : 6 + (unsigned)vh_below(70), i; int style = (int)vh_below(5);
	add_content("", 0);
	while (nC < n) {
		char b[300]; unsigned l = style == 0 ? 1 + (unsigned)vh_below(3) : style == 1 ? (unsigned)vh_below(12) : (unsigned)vh_below(vh_chance(5) ? 280 : 24), k;
		if (style == 3 && nC > 2) { content *c = &C[vh_below(nC)]; l = c->len < 250 ? c->len : 250; memcpy(b, c->s, l); if (vh_chance(60) && l < 260) b[l++] = 'x'; else if (l) b[vh_below(l)] ^= 1 + (int)vh_below(3); }
		else for (k = 0; k < l; k++) b[k] = style == 2 ? (char)(1 + vh_below(255)) : style == 4 ? "%dns\\ "[vh_below(6)] : "ab0"[vh_below(3)];
		for (k = 0; k < l; k++) if (!b[k]) b[k] = 1;
		b[l] = 0;
		if (n < 100 || nC < 400 ? find_content(b) < 0 : 1) { if (find_content(b) < 0) add_content(b, l); else n--; } else if (style == 0 && nC > 40) n = nC;
		else if (vh_chance(2)) n--;
	}
	if (vh_chance(10)) { unsigned l = 5000 + (unsigned)vh_below(vh_thorough ? 300000 : 60000); char *b = malloc(l + 1); memset(b, 'L', l); b[l] = 0; add_content(b, l); b[l - 1] = 'M'; add_content(b, l); free(b); }
	if (vh_chance(3)) { /* a long common beginning */
		unsigned l = 10000 + (unsigned)vh_below(250000), q = 3 + (unsigned)vh_below(9); char *b = malloc(l + 20);
		memset(b, 'c', l); for (i = 0; i < q; i++) add_content(b, l + (unsigned)sprintf(b + l, "%u", i * 7)); free(b); vh_count("contents with a long common beginning", q);
	}
	(void)i;
}
void vh_case(uint64_t idx)
{
	unsigned k, ops; int q; uint64_t h = 0; unsigned n_grown = 0, copied = 0, destroyed = 0;
	nC = 0; make_contents();
	nP = 1 + (int)vh_below(3) + 1;
	memset(P, 0, sizeof P); P[nP - 1].global = 1;
	/* before its first use the global pool has no statistics */
	if (vh_chance(30)) { str_Stats s = str_get_stats(); VH_CHECK(!s->count && !s->bytes && !s->retrievals && !s->hits && !s->misses, "stats-before-use", "the unused global pool reports %d strings %d bytes %d retrievals", s->count, s->bytes, s->retrievals); xfree(s); }
	for (q = 0; q < nP; q++) { fresh(&P[q]); if (!P[q].global) P[q].p = str_pool_create(); }
	ops = nC > 300 ? 2 * nC : 60 + (unsigned)vh_below(300);
	for (k = 0; k < ops; k++) {
		pool *m = &P[vh_below(nP)]; unsigned i = (unsigned)vh_below(nC); int w = (int)vh_below(100);
		if (!m->live) { fresh(m); if (!m->global) m->p = str_pool_create(); }
		h = vh_mix(h, (uint64_t)w * 1000 + i);
		if (w < 30) do_find(m, i);
		else if (w < 45) { do_exists(m, i); }
		else if (w < 57) { do_grow(m, i); n_grown++; }
		else if (w < 60) do_grow_together(i);
		else if (w < 70) { do_copy(m, i, vh_chance(60)); copied++; }
		else if (w < 78) { if (m->global) do_findn(m, i); else do_find(m, i); }
		else if (w < 83) { if (m->global && C[i].len < 100) do_unique(m, i); else check_hit(m, i); }
		else if (w < 88) { if (!m->global && (nC < 300 || vh_chance(2))) do_walk(m); else do_exists(m, i); }
		else if (w < 94) check_stats(m);
		else if (w < 96) { kill_pool(m); destroyed++; }
		else if (nC < 300 || vh_chance(5)) verify_all(m);
	}
	for (q = 0; q < nP; q++) if (P[q].live) { verify_all(&P[q]); if (P[q].nin + P[q].ncp || !P[q].global) check_stats(&P[q]); if (!P[q].global && nC < 300) do_walk(&P[q]); }
	verify_disjoint();
	for (q = 0; q < nP; q++) { vh_digest(P[q].nin); if (P[q].live) kill_pool(&P[q]); else if (P[q].global) str_destroy(); free(P[q].in); free(P[q].cp); P[q].in = NULL; P[q].cp = NULL; }
	for (k = 0; k < nC; k++) free(C[k].s);
	vh_digest(h);
	if (n_grown > 2 && copied && destroyed) vh_nontrivial();
	if (idx < 2) vh_sample("%d pools (one global), %u contents, %u operations, %u grown, %u copied, %u pools destroyed", nP, nC, ops, n_grown, copied, destroyed);
}
