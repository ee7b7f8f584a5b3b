/* cont.h -- one hash table or one set together with its model */
#ifndef CONT_H
#define CONT_H
#include "hkit.h"
typedef struct {
	int isset; void *h; hk_universe u;
	const void **stored, **datum; char *in; unsigned count;
} cont;
static __attribute__((unused)) void c_make(cont *c, int isset, int kind, unsigned n)
{
	memset(c, 0, sizeof *c);
	c->isset = isset; hk_make(&c->u, kind, n);
	c->h = isset ? set_create(c->u.hash, c->u.cmp) : hsh_create(c->u.hash, c->u.cmp);
	c->stored = calloc(n + 1, sizeof(void *)); c->datum = calloc(n + 1, sizeof(void *)); c->in = calloc(n + 1, 1);
	vh_op("create %s %s with %u keys", isset ? "set" : "table", hk_kind_name[kind], n);
}
static __attribute__((unused)) void c_free(cont *c)
{
	if (c->isset) set_destroy(c->h); else hsh_destroy(c->h);
	hk_verify_free(&c->u); free(c->stored); free(c->datum); free(c->in);
}
static __attribute__((unused)) const void *c_key(cont *c, unsigned i) { return vh_chance(50) ? c->u.alias[i] : c->u.key[i]; }
static __attribute__((unused)) void c_insert(cont *c, unsigned i)
{
	static unsigned char pool[65536]; static unsigned k;
	const void *key = c_key(c, i), *d = vh_chance(8) ? NULL : pool + (k++ & 0xffff); int r;
	r = c->isset ? set_insert(c->h, key) : hsh_insert(c->h, key, d);
	vh_op("insert %s -> %d", hk_show(&c->u, i), r);
	VH_CHECK(r == !!c->in[i], "insert-result", "insert of %s gives %d, present %d", hk_show(&c->u, i), r, c->in[i]);
	if (!c->in[i]) { c->in[i] = 1; c->stored[i] = key; c->datum[i] = c->isset ? NULL : d; c->count++; }
}
static __attribute__((unused)) void c_delete(cont *c, unsigned i)
{
	const void *key = hk_ask(&c->u, i);
	int r = c->isset ? set_delete(c->h, key) : hsh_delete(c->h, key);
	vh_op("delete %s -> %d", hk_show(&c->u, i), r);
	VH_CHECK(r == !c->in[i], "delete-result", "delete of %s gives %d, present %d", hk_show(&c->u, i), r, c->in[i]);
	if (c->in[i]) { c->in[i] = 0; c->count--; }
}
static __attribute__((unused)) void c_look(cont *c, unsigned i)
{
	const void *key = hk_ask(&c->u, i);
	vh_count("look-ups", 1);
	if (c->isset) { int r = set_member(c->h, key); VH_CHECK(r == !!c->in[i], "lookup-wrong", "membership of %s is %d, should be %d", hk_show(&c->u, i), r, c->in[i]); }
	else { const void *r = hsh_retrieve(c->h, key); VH_CHECK(r == (c->in[i] ? c->datum[i] : NULL), "lookup-wrong", "look-up of %s is %p, should be %p", hk_show(&c->u, i), r, c->in[i] ? c->datum[i] : NULL); }
}
static __attribute__((unused)) void c_sweep(cont *c) { unsigned i; for (i = 0; i < c->u.n; i++) c_look(c, i); }
static __attribute__((unused)) int c_readonly(cont *c, int f) { return c->isset ? set_readonly(c->h, f) : hsh_readonly(c->h, f); }
typedef struct { unsigned long size, resizings, entries, used, singles, maxlen, retrievals, hits, misses; } cstats;
static __attribute__((unused)) cstats c_stats(cont *c)
{
	cstats r; memset(&r, 0, sizeof r);
	if (c->isset) { set_Stats s = set_get_stats(c->h); r.size = s->size; r.resizings = s->resizings; r.entries = s->entries; r.used = s->buckets_used; r.singles = s->singletons; r.maxlen = s->maximum_length; r.retrievals = s->retrievals; r.hits = s->hits; r.misses = s->misses; xfree(s); }
	else { hsh_Stats s = hsh_get_stats(c->h); r.size = s->size; r.resizings = s->resizings; r.entries = s->entries; r.used = s->buckets_used; r.singles = s->singletons; r.maxlen = s->maximum_length; r.retrievals = s->retrievals; r.hits = s->hits; r.misses = s->misses; xfree(s); }
	return r;
}
#endif
