/* C06: lists as sequences */
#include "vh.h"
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
#define ML 4
typedef struct { const void *p; uint64_t uid; } el;
typedef struct { lst_List l; el *a; unsigned n, cap; } lm;
static lm L[ML]; static int nl; static uint64_t uid;
static struct { lst_Position pos; uint64_t uid; int list; int used; } saved[12];
static unsigned char pool[64];

static const void *val(void) { return vh_chance(8) ? NULL : (void *)(pool + vh_below(vh_chance(50) ? 3 : 64)); }
static void room(lm *m, unsigned k) { if (m->n + k > m->cap) { m->cap = (m->n + k) * 2 + 8; m->a = realloc(m->a, m->cap * sizeof(el)); } }
static int find_uid(lm *m, uint64_t u) { unsigned i; for (i = 0; i < m->n; i++) if (m->a[i].uid == u) return (int)i; return -1; }
static void forget(int li, uint64_t u) { int i; for (i = 0; i < 12; i++) if (saved[i].used && saved[i].list == li && (u == 0 || saved[i].uid == u)) saved[i].used = 0; }
static void cut(int li, unsigned len) { unsigned i; for (i = len; i < L[li].n; i++) forget(li, L[li].a[i].uid); if (len < L[li].n) L[li].n = len; }

static lm *im; static unsigned ik; static long istop; static int iret, ifn, idepth, ibudget; static void *iarg[3]; static int cookies[3];
static void iterate(lm *m, int arg, long stop);
static int it(const void *d)
{
	VH_CHECK(ik < im->n, "iteration-extra", "iteration presents more than %u elements", im->n);
	VH_CHECK(d == im->a[ik].p, "iteration-wrong", "iteration presents %p as element %u of %u, should be %p", d, ik + 1, im->n, im->a[ik].p);
	ik++;
	if (idepth < 2 && ibudget > 0 && vh_chance(2)) {   /* a walk over any list within a walk */
		lm *m = im; unsigned k = ik; long s = istop; int v = iret, f = ifn; lm *o = &L[vh_below(nl)];
		ibudget--; idepth++; iterate(o, (int)vh_below(2), vh_chance(50) ? (long)vh_below(o->n + 2) : o->n > 500 ? 5 : -1); idepth--; vh_count("iterations within iterations", 1);
		im = m; ik = k; istop = s; iret = v; ifn = f;
	}
	return istop >= 0 && (long)ik > istop ? iret : 0;
}
static void mine(int fn) { if (fn != ifn) vh_fail("other-callback", "the callback of another iteration was called"); }
static int it0(const void *d) { mine(0); return it(d); }
static int it1(const void *d) { mine(1); return it(d); }
static int ita0(const void *d, void *a) { if (a != iarg[idepth]) vh_fail("argument-lost", "the callback got %p instead of its argument", a); mine(0); return it(d); }
static int ita1(const void *d, void *a) { if (a != iarg[idepth]) vh_fail("argument-lost", "the callback got %p instead of its argument", a); mine(1); return it(d); }
static void iterate(lm *m, int arg, long stop)
{
	int r;
	im = m; ik = 0; istop = stop; { static const int v[] = { 1, -1, 2, 256, INT_MIN, 65536 }; iret = v[vh_below(6)]; }
	ifn = (int)vh_below(2); if (!idepth) ibudget = 3;
	r = arg ? lst_iterate_arg(m->l, ifn ? ita1 : ita0, iarg[idepth] = vh_chance(25) ? NULL : (void *)&cookies[idepth]) : lst_iterate(m->l, ifn ? it1 : it0);
	if (stop >= 0 && stop < (long)m->n) { VH_CHECK(r != 0, "stop-result", "stopped iteration returned 0 (callback %d)", iret); VH_CHECK(ik == (unsigned)stop + 1, "stop-late", "iteration went on to %u after a stop at %ld", ik, stop + 1); }
	else { VH_CHECK(r == 0, "complete-result", "complete iteration returned %d", r); VH_CHECK(ik == m->n, "iteration-short", "iteration presents %u of %u elements", ik, m->n); }
	vh_count("iterations", 1);
}
static void full(int li)
{
	lm *m = &L[li]; unsigned i; lst_Position p; void *e;
	VH_CHECK(lst_length(m->l) == m->n, "length-wrong", "length %u, should be %u", lst_length(m->l), m->n);
	i = 0;
	LST_ITERATE(m->l, p, e) { VH_CHECK(i < m->n && e == m->a[i].p, "sequence-wrong", "element %u of %u is %p", i + 1, m->n, e); i++; }
	VH_CHECK(i == m->n, "sequence-short", "walk ends after %u of %u elements", i, m->n);
	VH_CHECK(lst_top(m->l) == (m->n ? m->a[0].p : NULL), "top-wrong", "top is %p of %u elements", lst_top(m->l), m->n);
	p = lst_last_position(m->l);
	VH_CHECK((p == NULL) == (m->n == 0), "last-position-wrong", "last position %p of %u elements", p, m->n);
	if (m->n) { VH_CHECK(lst_get_position(p) == m->a[m->n - 1].p, "last-position-wrong", "last position holds %p, should hold %p", lst_get_position(p), m->a[m->n - 1].p); VH_CHECK(lst_next_position(p) == NULL, "last-position-wrong", "there is an element behind the last"); }
	vh_count("complete comparisons", 1);
}
void vh_case(uint64_t idx)
{
	unsigned ops, k; int i, trunc_then_append = 0, poppedempty = 0, maxn = 0, j; unsigned big = 0;
	static uint64_t kinds; kinds = 0; uid = 1;
	memset(saved, 0, sizeof saved);
	nl = 1 + (int)vh_below(ML);
	for (i = 0; i < nl; i++) { memset(&L[i], 0, sizeof L[i]); L[i].l = lst_create(); }
	ops = 30 + vh_below(vh_chance(10) ? 3000 : 400);
	if (idx % 150 == 4) big = vh_thorough ? 200000 : 50000;
	for (k = 0; k < ops; k++) {
		int li = (int)vh_below(nl), op = (int)vh_below(20); lm *m = &L[li]; unsigned n;
		if (big) { /* a long list */ for (n = 0; n < big; n++) { el e; e.p = val(); e.uid = ++uid; room(m, 1); lst_append(m->l, e.p); m->a[m->n++] = e; } big = 0; vh_count("long lists", 1); }
		if (m->n > 500 && op > 15) op = 8;
		switch (op) {
		case 0: case 1: case 2: case 3: { el e; e.p = val(); e.uid = ++uid; lst_append(m->l, e.p); vh_op("append %p to %d (%u)", e.p, li, m->n); room(m, 1); m->a[m->n++] = e; vh_count("appends", 1); break; }
		case 4: case 5: { el e; e.p = val(); e.uid = ++uid; lst_push(m->l, e.p); vh_op("push %p to %d (%u)", e.p, li, m->n); room(m, 1); memmove(m->a + 1, m->a, m->n * sizeof(el)); m->a[0] = e; m->n++; vh_count("pushes", 1); break; }
		case 6: case 7: { void *r = lst_pop(m->l), *w = m->n ? (void *)m->a[0].p : NULL; vh_op("pop from %d (%u) -> %p", li, m->n, r); VH_CHECK(r == w, "pop-wrong", "pop of %u elements gives %p, should be %p", m->n, r, w);
			if (m->n) { forget(li, m->a[0].uid); memmove(m->a, m->a + 1, (m->n - 1) * sizeof(el)); m->n--; } else poppedempty = 1; vh_count("pops", 1); break; }
		case 8: case 9: { unsigned q = vh_chance(10) ? (vh_chance(50) ? 0 : UINT_MAX) : (unsigned)vh_below(m->n + 3); void *r = lst_nth_get(m->l, q), *w = q >= 1 && q <= m->n ? (void *)m->a[q - 1].p : NULL; VH_CHECK(r == w, "nth-wrong", "element %u of %u is %p, should be %p", q, m->n, r, w);
			lst_Position p = lst_nth_position(m->l, q); VH_CHECK((p == NULL) == !(q >= 1 && q <= m->n), "nth-position-wrong", "position of element %u of %u is %p", q, m->n, p); VH_CHECK(lst_get_position(p) == w, "nth-position-wrong", "position %u holds %p, should hold %p", q, lst_get_position(p), w); vh_count("element reads", 1); break; }
		case 10: if (m->n) { unsigned q = 1 + vh_below(m->n); const void *v = val(); lst_nth_set(m->l, q, v); vh_op("set element %u of %d (%u) to %p", q, li, m->n, v); m->a[q - 1].p = v; vh_count("element replacements", 1); } break;
		case 11: { const void *v = val(); int w = 0, r; unsigned q; for (q = 0; q < m->n; q++) if (m->a[q].p == v) w = 1; r = lst_member(m->l, v); VH_CHECK(!!r == w, "member-wrong", "membership of %p is %d, should be %d", v, r, w); vh_count("membership tests", 1); break; }
		case 12: { unsigned len = vh_below(m->n + 3); if (vh_chance(10)) len = 0; if (m->n > 2 && vh_chance(60)) len = m->n - 1 - vh_below(m->n < 4 ? m->n : 4); lst_truncate(m->l, len); vh_op("truncate %d (%u) to %u", li, m->n, len); cut(li, len); vh_count("truncations", 1); full(li);
			if (vh_chance(70)) { el e; e.p = val(); e.uid = ++uid; lst_append(m->l, e.p); vh_op("append %p to %d", e.p, li); room(m, 1); m->a[m->n++] = e; trunc_then_append++; full(li); } break; }
		case 13: { /* truncate to a position */
			int how = (int)vh_below(4); lst_Position p = NULL; unsigned len = 0; int s = -1;
			if (how == 0 || !m->n) p = NULL;
			else if (how == 1) { len = 1 + vh_below(m->n); p = lst_nth_position(m->l, len); }
			else if (how == 2) { len = m->n; p = lst_last_position(m->l); }
			else { for (i = 0; i < 12; i++) if (saved[i].used && saved[i].list == li) s = i; if (s < 0) break; len = (unsigned)find_uid(m, saved[s].uid) + 1; p = saved[s].pos; vh_count("truncations to a saved position", 1); }
			lst_truncate_position(m->l, p); vh_op("truncate %d (%u) to position of element %u", li, m->n, len); cut(li, len); full(li); vh_count("truncations to a position", 1);
			if (vh_chance(70)) { el e; e.p = val(); e.uid = ++uid; lst_append(m->l, e.p); room(m, 1); m->a[m->n++] = e; trunc_then_append++; full(li); } break; }
		case 14: if (m->n) { /* remember a position */ unsigned q = vh_chance(50) ? m->n : 1 + vh_below(m->n); i = (int)vh_below(12); saved[i].pos = q == m->n ? lst_last_position(m->l) : q == 1 ? lst_init_position(m->l) : lst_nth_position(m->l, q); saved[i].uid = m->a[q - 1].uid; saved[i].list = li; saved[i].used = 1; } break;
		case 15: { /* use a remembered position: it still addresses its element */
			for (j = 0; j < 12; j++) if (saved[j].used) { lm *x = &L[saved[j].list]; int q = find_uid(x, saved[j].uid); if (q < 0) vh_inconclusive("model error");
				VH_CHECK(lst_get_position(saved[j].pos) == x->a[q].p, "position-get-wrong", "saved position of element %d holds %p, should hold %p", q + 1, lst_get_position(saved[j].pos), x->a[q].p);
				if (vh_chance(50)) { const void *v = val(); lst_set_position(saved[j].pos, v); x->a[q].p = v; }
				lst_Position nx = lst_next_position(saved[j].pos); VH_CHECK((nx == NULL) == ((unsigned)q + 1 == x->n) && (nx == NULL || lst_get_position(nx) == x->a[q + 1].p), "position-next-wrong", "the position behind element %d of %u is wrong", q + 1, x->n);
				vh_count("saved positions used", 1); } break; }
		case 16: iterate(m, (int)vh_below(2), vh_chance(50) ? (long)vh_below(m->n + 2) : -1); break;
		case 17: { lm *m2 = &L[vh_below(nl)]; lst_Position p1, p2; void *e1, *e2; unsigned q = 0; LST_ITERATE2(m->l, m2->l, p1, p2, e1, e2) { VH_CHECK(q < m->n && q < m2->n && e1 == m->a[q].p && e2 == m2->a[q].p, "pair-walk-wrong", "pair %u is wrong", q + 1); q++; } VH_CHECK(q == (m->n < m2->n ? m->n : m2->n), "pair-walk-short", "pair walk over %u and %u elements ends after %u", m->n, m2->n, q); vh_count("pair walks", 1); break; }
		case 18: full(li); break;
		case 19: if (vh_chance(15)) { /* replace the whole list */ lst_destroy(m->l); forget(li, 0); m->l = lst_create(); m->n = 0; vh_op("destroy and create %d", li); for (i = 0; i < nl; i++) full(i); vh_count("destructions", 1); }
			VH_CHECK(lst_get_position(NULL) == NULL && lst_next_position(NULL) == NULL, "null-position", "accessors of the NULL position"); lst_set_position(NULL, pool); break;
		}
		kinds |= 1u << op;
		if ((int)m->n > maxn) maxn = (int)m->n;
		if (vh_chance(5)) for (i = 0; i < nl; i++) if (L[i].n < 2000) full(i);
	}
	for (i = 0; i < nl; i++) { full(i); iterate(&L[i], 0, -1); vh_digest(L[i].n); for (k = 0; k < L[i].n; k++) vh_digest((uintptr_t)L[i].a[k].p - (uintptr_t)pool); }
	vh_max("longest list", maxn);
	if (trunc_then_append && (kinds & 0xc0) && maxn > 3 && nl > 1) vh_nontrivial();
	if (poppedempty) vh_count("pops of an empty list", 1);
	if (idx < 2) vh_sample("%d lists, %u operations, longest %d, %d appends right behind a truncation, final lengths %u..", nl, ops, maxn, trunc_then_append, L[0].n);
	while (nl) { i = (int)vh_below(nl); lst_destroy(L[i].l); free(L[i].a); forget(i, 0); for (j = 0; j < 12; j++) if (saved[j].list == nl - 1) saved[j].list = i; L[i] = L[--nl]; for (i = 0; i < nl; i++) full(i); }
	_lst_shutdown();
}
