/* C02: walks over hash tables and sets */
#include "cont.h"
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }

#define MAXDEPTH 3
typedef struct {
	cont *c; char *seen; char *start; unsigned nseen; long stop_at; int stop_val;
	int del;        /* per cent of given entries to delete (tables, outermost only) */
	int depth; int lookups; int nested;
	unsigned deleted;
	int cookie, fn; void *arg;  /* which of two callbacks was given */
} walk;
static int budget;
static walk *cw;       /* the current walk, for the callbacks without argument */
static cont *all[2]; static int nall;
static uint64_t nested_walks, del_in_walk, look_in_walk, early;

static unsigned by_pointer(cont *c, const void *k)
{
	unsigned i;
	for (i = 0; i < c->u.n; i++) if (c->in[i] && c->stored[i] == k) return i;
	return c->u.n;
}
static int do_walk(cont *c, int depth, int nested_ok, int inpos);

static int step(walk *w, const void *k, const void *d)
{
	unsigned i = by_pointer(w->c, k), j;
	vh_count("entries presented", 1);
	if (i >= w->c->u.n) vh_fail("foreign-entry", "the walk presents %p, which is not a stored key", k);
	if (!w->start[i]) vh_fail("not-at-start", "the walk presents %s, which was not there at its start", hk_show(&w->c->u, i));
	if (w->seen[i]) vh_fail("presented-twice", "the walk presents %s twice", hk_show(&w->c->u, i));
	if (!w->c->isset && d != (void *)-1) VH_CHECK(d == w->c->datum[i], "datum-wrong", "the walk presents %s with %p instead of %p", hk_show(&w->c->u, i), d, w->c->datum[i]);
	w->seen[i] = 1; w->nseen++;
	for (j = vh_below(w->lookups + 1); j > 0; j--) { c_look(w->c, vh_below(w->c->u.n)); look_in_walk++; }
	if (nall > 1 && vh_chance(5)) c_look(all[1], vh_below(all[1]->u.n));
	if (w->nested && budget > 0 && vh_chance(15) && w->depth < MAXDEPTH) {
		budget--;
		walk *save = cw;
		do_walk(all[vh_below(nall)] , w->depth + 1, 1, 0);
		cw = save; nested_walks++;
	}
	if (w->del && vh_chance(w->del)) { c_delete(w->c, i); w->deleted++; del_in_walk++; if (vh_chance(30)) c_look(w->c, i); }
	if (w->stop_at >= 0 && (long)w->nseen > w->stop_at) return w->stop_val;
	return 0;
}
static void mine(int fn) { if (cw->fn != fn) vh_fail("other-callback", "the callback of another walk was called (depth %d)", cw->depth); }
static int cb_kd(const void *k, const void *d) { mine(0); return step(cw, k, d); }
static int cb_kd2(const void *k, const void *d) { mine(1); return step(cw, k, d); }
static int cb_kda2(const void *k, const void *d, void *a)
{
	if (a != cw->arg) vh_fail("argument-lost", "the callback got %p instead of its argument", a);
	mine(1); return step(cw, k, d);
}
static int cb_k2(const void *k) { mine(1); return step(cw, k, (void *)-1); }
static int cb_ka2(const void *k, void *a)
{
	if (a != cw->arg) vh_fail("argument-lost", "the callback got %p instead of its argument", a);
	mine(1); return step(cw, k, (void *)-1);
}
static int cb_kda(const void *k, const void *d, void *a)
{
	if (a != cw->arg) vh_fail("argument-lost", "the callback got %p instead of its argument", a);
	mine(0); return step(cw, k, d);
}
static int cb_k(const void *k) { mine(0); return step(cw, k, (void *)-1); }
static int cb_ka(const void *k, void *a)
{
	if (a != cw->arg) vh_fail("argument-lost", "the callback got %p instead of its argument", a);
	mine(0); return step(cw, k, (void *)-1);
}

static int get_mark(cont *c) { int m = c_readonly(c, 1); if (!m) c_readonly(c, 0); return m; }

/* one walk; inpos: we are inside a position walk over some container */
static int do_walk(cont *c, int depth, int nested_ok, int inpos)
{
	walk w; int r = 0, m0, m1; int position = depth == 0 && !inpos && vh_chance(45);
	const char *how;
	memset(&w, 0, sizeof w);
	w.c = c; w.depth = depth; w.seen = calloc(c->u.n + 1, 1); w.start = malloc(c->u.n + 1); memcpy(w.start, c->in, c->u.n + 1);
	w.stop_at = vh_chance(35) ? (long)vh_below(c->count + 1) : -1;
	{ static const int vals[] = { 1, -1, 2, 255, 256, INT_MIN, INT_MAX, 65536 }; w.stop_val = vals[vh_below(8)]; }
	w.lookups = vh_chance(60) ? (int)vh_below(8) : 0;
	w.nested = nested_ok && vh_chance(40);
	m0 = get_mark(c);
	w.del = (!c->isset && depth == 0 && !position && !m0 && vh_chance(40)) ? (vh_chance(30) ? 100 : (int)vh_below(60)) : 0;
	if (w.del) w.nested = 0;
	cw = &w;
	if (position) {
		int broke = 0;
		how = "position";
		vh_op("position walk over %u entries, stop at %ld, mark before %d", c->count, w.stop_at, m0);
		if (c->isset) {
			set_Position p; void *e;
			SET_ITERATE(c->h, p, e) {
				if (w.nseen == 0 || vh_chance(10)) VH_CHECK(set_readonly(c->h, 1) != 0, "walk-not-marked", "no read-only mark during a position walk");
				if (step(&w, e, (void *)-1)) { broke = 1; break; }
			}
			if (broke) { VH_CHECK(set_readonly(c->h, 1) != 0, "walk-not-marked", "no read-only mark after leaving a position walk early"); SET_ITERATE_END(c->h); }
			else if (vh_chance(50)) SET_ITERATE_END(c->h);
		} else if (vh_chance(70)) {
			hsh_Position p; void *k, *d;
			HSH_ITERATE(c->h, p, k, d) {
				if (w.nseen == 0 || vh_chance(10)) VH_CHECK(hsh_readonly(c->h, 1) != 0, "walk-not-marked", "no read-only mark during a position walk");
				if (step(&w, k, d)) { broke = 1; break; }
			}
			if (broke) { VH_CHECK(hsh_readonly(c->h, 1) != 0, "walk-not-marked", "no read-only mark after leaving a position walk early"); HSH_ITERATE_END(c->h); }
			else if (vh_chance(50)) HSH_ITERATE_END(c->h);
		} else {
			hsh_Position p; void *k;
			HSH_ITERATE_KEYS(c->h, p, k) {
				if (step(&w, k, (void *)-1)) { broke = 1; break; }
			}
			if (broke) HSH_ITERATE_END(c->h);
		}
		r = broke;
		if (broke) early++;
		if (c->count) { m1 = get_mark(c); VH_CHECK(m1 == 0, "mark-left", "the read-only mark is still set after the position walk"); m0 = 0; }
	} else {
		int a = vh_chance(50);
		how = "callback";
		vh_op("depth %d callback walk over %u entries, stop at %ld, deleting %d%%, mark before %d", depth, c->count, w.stop_at, w.del, m0);
		w.fn = (int)vh_below(2); w.arg = vh_chance(25) ? NULL : vh_chance(10) ? (void *)c->h : &w.cookie;
		if (c->isset) r = a ? set_iterate_arg(c->h, w.fn ? cb_ka2 : cb_ka, w.arg) : set_iterate(c->h, w.fn ? cb_k2 : cb_k);
		else r = a ? hsh_iterate_arg(c->h, w.fn ? cb_kda2 : cb_kda, w.arg) : hsh_iterate(c->h, w.fn ? cb_kd2 : cb_kd);
		m1 = get_mark(c);
		VH_CHECK(!!m1 == !!m0, "mark-changed", "the callback walk changed the read-only mark from %d to %d", m0, m1);
		if (w.stop_at >= 0 && w.stop_at < (long)w.nseen) early++;
	}
	{
		unsigned startn = 0, i;
		for (i = 0; i < c->u.n; i++) startn += w.start[i];
		if (w.stop_at >= 0 && (unsigned long)w.stop_at < startn) {
			VH_CHECK(r != 0, "stop-result", "%s walk stopped by its callback (%d) returned 0", how, w.stop_val);
			VH_CHECK(w.nseen == (unsigned)w.stop_at + 1, "stop-late", "walk stopped after %u entries, asked to stop after %ld", w.nseen, w.stop_at + 1);
		} else {
			VH_CHECK(r == 0, "complete-result", "complete %s walk returned %d", how, r);
			VH_CHECK(w.nseen == startn, "entries-missed", "%s walk presented %u of %u entries (%s, depth %d)", how, w.nseen, startn, hk_kind_name[c->u.kind], depth);
		}
	}
	vh_count("walks", 1);
	vh_digest(w.nseen * 8 + depth * 2 + (w.stop_at >= 0)); vh_digest(w.deleted);
	free(w.seen); free(w.start);
	return r;
}

void vh_case(uint64_t idx)
{
	cont c[2]; int i, rounds, k; unsigned n;
	nested_walks = del_in_walk = look_in_walk = early = 0;
	nall = 1 + vh_chance(50);
	for (i = 0; i < nall; i++) {
		static const unsigned sz[] = { 1, 2, 4, 8, 20, 60, 120 };
		int kind = (int)vh_below(HK_NKINDS);
		n = sz[vh_below(7)];
		if (idx % 200 == 9) n = 1500;
		c_make(&c[i], (int)vh_below(2), kind, n); all[i] = &c[i];
	}
	rounds = 2 + (int)vh_below(8);
	for (k = 0; k < rounds; k++) {
		cont *x = &c[vh_below(nall)]; unsigned m = vh_below(x->u.n * 2 + 1);
		int grow = vh_chance(60);
		while (m--) { if (vh_chance(grow ? 80 : 30)) c_insert(x, vh_below(x->u.n)); else c_delete(x, vh_below(x->u.n)); if (vh_chance(10)) c_look(x, vh_below(x->u.n)); }
		/* marks set by hand return the previous mark */
		if (vh_chance(30)) {
			int last = 0, j;
			for (j = 0; j < 5; j++) { static const int on[] = { 1, 1, 1, 2, -1, 256, 65536, INT_MIN, 3 }; int f = vh_chance(50) ? on[vh_below(9)] : 0, r = c_readonly(x, f); VH_CHECK(!!r == !!last, "previous-mark", "setting the mark to %d returned %d instead of %d", f, r, last); last = f; vh_count("mark settings", 1); }
			if (vh_chance(50)) { /* a callback walk over a marked container */
				c_readonly(x, 1);
				int sn = nall; budget = 10; nall = 1; all[0] = x;
				do_walk(x, 1, 1, 0);
				nall = sn; all[0] = &c[0];
				VH_CHECK(c_readonly(x, 0) != 0, "previous-mark", "mark lost");
			} else c_readonly(x, 0);
		}
		budget = x->u.n > 1000 ? 4 : 30;
		do_walk(x, 0, 1, 0);
		/* modifications are accepted again (a refusal aborts) */
		{ unsigned j = vh_below(x->u.n); if (x->in[j]) { c_delete(x, j); c_insert(x, j); } else { c_insert(x, j); if (vh_chance(50)) c_delete(x, j); } }
		c_sweep(x);
	}
	if (look_in_walk > 3 && (nested_walks || del_in_walk || early)) vh_nontrivial();
	vh_count("nested walks", nested_walks); vh_count("deletions inside a walk", del_in_walk); vh_count("look-ups inside a walk", look_in_walk); vh_count("walks ended early", early);
	if (idx < 2) vh_sample("%d container(s), first %s %s with %u keys: %d walks outermost, %llu nested, %llu look-ups and %llu deletions inside, %llu ended early", nall, c[0].isset ? "set" : "table", hk_kind_name[c[0].u.kind], c[0].u.n, rounds, (unsigned long long)nested_walks, (unsigned long long)look_in_walk, (unsigned long long)del_in_walk, (unsigned long long)early);
	c_free(&c[0]); if (nall == 2) c_free(&c[1]);
}
