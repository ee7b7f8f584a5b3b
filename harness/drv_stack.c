/* C07: stacks */
#include "vh.h"
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
typedef struct { stk_Stack s; void **a; unsigned n, cap; } sm;
static unsigned char pool[256];
static void push(sm *m, void *v) { stk_push(m->s, v); if (m->n == m->cap) { m->cap = m->cap * 2 + 16; m->a = realloc(m->a, m->cap * sizeof(void *)); } m->a[m->n++] = v; vh_count("pushes", 1); }
static void pop(sm *m)
{
	void *w = m->n ? m->a[m->n - 1] : NULL, *r;
	r = stk_pop(m->s);
	VH_CHECK(r == w, "pop-wrong", "pop at depth %u gives %p, should be %p", m->n, r, w);
	if (m->n) m->n--; else vh_count("pops of an empty stack", 1);
	vh_count("pops", 1);
}
static void look(sm *m)
{
	void *w = m->n ? m->a[m->n - 1] : NULL, *r = stk_top(m->s); int e;
	VH_CHECK(r == w, "top-wrong", "top at depth %u is %p, should be %p", m->n, r, w);
	e = stk_isempty(m->s);
	VH_CHECK(!!e == !m->n, "emptiness-wrong", "emptiness is %d at depth %u", e, m->n);
	if (m->n == 0) vh_count("looks at an empty stack", 1);
	vh_count("tops and emptiness tests", 1);
}
void vh_case(uint64_t idx)
{
	sm S[4]; int n = 1 + (int)vh_below(4), i, emptied = 0; unsigned k, ops = 40 + vh_below(600), maxd = 0, bias = 60;
	uint64_t h = 0;
	for (i = 0; i < n; i++) { memset(&S[i], 0, sizeof S[i]); S[i].s = stk_create(); look(&S[i]); }
	if (idx % 100 == 6) { unsigned d = vh_thorough ? 500000 : 120000; for (k = 0; k < d; k++) push(&S[0], k % 17 == 3 ? NULL : (void *)(uintptr_t)(k * 2654435761u)); maxd = d; look(&S[0]); if (vh_chance(50)) while (S[0].n > 3) pop(&S[0]); }
	for (k = 0; k < ops; k++) {
		sm *m = &S[vh_below(n)]; int w = (int)vh_below(100);
		if (k % 60 == 0) bias = vh_chance(50) ? 65 : 25;
		if (w < (int)bias) { void *v = vh_chance(15) ? NULL : vh_chance(20) ? (void *)(uintptr_t)vh_u64() : (void *)(pool + vh_below(256)); push(m, v); vh_op("push %p on %d", v, (int)(m - S)); h = vh_mix(h, v == NULL ? 7 : 1); }
		else if (w < 90) { pop(m); vh_op("pop from %d", (int)(m - S)); if (!m->n) emptied++; h = vh_mix(h, 2); }
		else if (w < 93) { while (m->n) pop(m); look(m); emptied++; }
		else if (w < 95) { stk_destroy(m->s); m->s = stk_create(); vh_op("destroy %d at depth %u", (int)(m - S), m->n); m->n = 0; look(m); vh_count("destructions", 1); h = vh_mix(h, 3); }
		else look(m);
		if (vh_chance(30)) look(m);
		if (m->n > maxd) maxd = m->n;
	}
	for (i = 0; i < n; i++) { vh_digest(S[i].n); if (vh_chance(60)) { while (S[i].n) pop(&S[i]); pop(&S[i]); look(&S[i]); } stk_destroy(S[i].s); free(S[i].a); }
	vh_digest(h); vh_max("greatest depth", maxd);
	if (emptied && n > 1 && maxd > 3) vh_nontrivial();
	if (idx < 2) vh_sample("%d stacks, %u operations, greatest depth %u, emptied %d times", n, ops, maxd, emptied);
}
