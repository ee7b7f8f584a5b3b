/* C01 (hash tables) and C04 (sets): the container answers like a finite map / set.
   Compile with -DSETS=0 or 1. */
#include "hkit.h"

#if SETS
typedef set_Set box;
#define CREATE(h,c)  set_create(h,c)
#define INSERT(t,k,d) set_insert(t,k)
#define DELETE(t,k)   set_delete(t,k)
#define DESTROY(t)    set_destroy(t)
#define WHAT "set"
#else
typedef hsh_HashTable box;
#define CREATE(h,c)  hsh_create(h,c)
#define INSERT(t,k,d) hsh_insert(t,k,d)
#define DELETE(t,k)   hsh_delete(t,k)
#define DESTROY(t)    hsh_destroy(t)
#define WHAT "table"
#endif

typedef struct {
	box t; hk_universe u;
	const void **stored;    /* key pointer stored, meaningful if in[] */
	const void **datum;
	char *in; unsigned count;
	unsigned char *mark;
} inst;


static void one_lookup(inst *x, unsigned i)
{
	const void *k = hk_ask(&x->u, i);
#if SETS
	int r = set_member(x->t, k);
	vh_count("membership tests", 1);
	VH_CHECK(r == (x->in[i] ? 1 : 0), "membership-wrong", "membership of %s is %d, should be %d (%u elements, %s)", hk_show(&x->u, i), r, x->in[i], x->count, hk_kind_name[x->u.kind]);
#else
	const void *r = hsh_retrieve(x->t, k);
	vh_count("look-ups", 1);
	VH_CHECK(r == (x->in[i] ? x->datum[i] : NULL), "lookup-wrong", "look-up of %s gives %p, should be %p (present %d, %u entries, %s)", hk_show(&x->u, i), r, x->in[i] ? x->datum[i] : NULL, x->in[i], x->count, hk_kind_name[x->u.kind]);
#endif
}

static inst *cur;
static struct ent { const void *p; unsigned i; } *ents;
static unsigned nents;
static int entcmp(const void *a, const void *b) { uintptr_t p = (uintptr_t)((const struct ent *)a)->p, q = (uintptr_t)((const struct ent *)b)->p; return p < q ? -1 : p > q; }
static void index_stored(inst *x)
{
	unsigned i;
	free(ents); ents = malloc(sizeof *ents * (x->count + 1)); nents = 0;
	for (i = 0; i < x->u.n; i++) if (x->in[i]) { ents[nents].p = x->stored[i]; ents[nents++].i = i; }
	qsort(ents, nents, sizeof *ents, entcmp);
}
static unsigned find_stored(inst *x, const void *k)
{
	struct ent e, *r; e.p = k; e.i = 0;
	r = bsearch(&e, ents, nents, sizeof *ents, entcmp);
	return r ? r->i : x->u.n;
}
static int seen(const void *k, const void *d)
{
	inst *x = cur; unsigned i;
	/* only stored pointers may be presented */
	i = find_stored(x, k);
	if (i >= x->u.n) vh_fail("foreign-key", "iteration presents %p, which is not a stored key pointer", k);
	if (x->mark[i]) vh_fail("key-twice", "iteration presents %s twice", hk_show(&x->u, i));
	x->mark[i] = 1;
#if !SETS
	VH_CHECK(d == x->datum[i], "datum-wrong", "iteration presents %s with datum %p instead of %p", hk_show(&x->u, i), d, x->datum[i]);
#else
	(void)d;
#endif
	if (vh_chance(15)) { int q = 1 + (int)vh_below(3); while (q--) one_lookup(x, vh_below(x->u.n)); vh_count("look-ups during an iteration", 1); }
	return 0;
}
#if SETS
static int seen1(const void *k) { return seen(k, NULL); }
#endif

static void sweep(inst *x, int iterate)
{
	unsigned i, c = 0;
	for (i = 0; i < x->u.n; i++) one_lookup(x, i);
	if (iterate) {
		memset(x->mark, 0, x->u.n); cur = x; index_stored(x);
#if SETS
		set_iterate(x->t, seen1);
#else
		hsh_iterate(x->t, seen);
#endif
		for (i = 0; i < x->u.n; i++) if (x->mark[i]) c++;
		VH_CHECK(c == x->count, "contents-wrong", "%u keys presented, %u present", c, x->count);
		vh_count("complete content comparisons", 1);
	}
#if SETS
	VH_CHECK((unsigned)set_count(x->t) == x->count, "count-wrong", "count is %d, should be %u", set_count(x->t), x->count);
#endif
}

static int bulk;
static void make(inst *x)
{
	static const unsigned sizes[] = { 1, 2, 3, 5, 12, 40, 150, 600, 2500 };
	unsigned n = sizes[vh_below(vh_chance(8) ? 9 : 8)];
	int kind = (int)vh_below(HK_NKINDS);
	if (bulk && vh_chance(25)) kind = HK_STR_EXPLICIT;
	if (bulk) n = 3000 + vh_below(bulk * 9000);
	if ((kind == HK_STR_CONST || kind == HK_STR_LOW || kind == HK_STR_NESTED || kind == HK_REC_TWO) && n > 1500) n = 1500;
	n += vh_below(n / 2 + 1);
	hk_make(&x->u, kind, n);
	x->t = CREATE(x->u.hash, x->u.cmp);
	vh_op("create " WHAT " %s, %u keys", hk_kind_name[kind], n);
	x->stored = calloc(n, sizeof(void *)); x->datum = calloc(n, sizeof(void *));
	x->in = calloc(n, 1); x->mark = calloc(n, 1); x->count = 0;
#if SETS
	VH_CHECK(set_get_hash(x->t) == (x->u.hash ? x->u.hash : hsh_string_hash), "hash-function-wrong", "wrong hash function reported (%s)", hk_kind_name[kind]);
	VH_CHECK(set_get_compare(x->t) == (x->u.cmp ? x->u.cmp : hsh_string_compare), "compare-function-wrong", "wrong compare function reported (%s)", hk_kind_name[kind]);
#endif
}
static void unmake(inst *x)
{
	DESTROY(x->t);
	hk_verify_free(&x->u);
	free(x->stored); free(x->datum); free(x->in); free(x->mark);
}

void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }

static void agree(inst *x)
{
	unsigned i = vh_below(x->u.n), j = vh_below(x->u.n);
	if (x->u.kind == HK_STR_DEFAULT || x->u.kind == HK_STR_EXPLICIT) {
		VH_CHECK(hsh_string_hash(x->u.key[i]) == hsh_string_hash(x->u.alias[i]), "string-hash-unequal", "equal strings hash differently");
		VH_CHECK(hsh_string_compare(x->u.key[i], x->u.alias[i]) == 0, "string-compare", "equal strings compare unequal");
		VH_CHECK((hsh_string_compare(x->u.key[i], x->u.key[j]) == 0) == (i == j), "string-compare", "different strings compare equal");
		vh_count("default function comparisons", 1);
	} else if (x->u.kind == HK_PTR) {
		volatile uintptr_t v = (uintptr_t)x->u.key[i];
		VH_CHECK(hsh_pointer_hash(x->u.key[i]) == hsh_pointer_hash((void *)v), "pointer-hash-unequal", "equal pointers hash differently");
		VH_CHECK((hsh_pointer_compare(x->u.key[i], x->u.key[j]) == 0) == (i == j), "pointer-compare", "pointer comparison of %p and %p", x->u.key[i], x->u.key[j]);
		vh_count("default function comparisons", 1);
	}
}

void vh_case(uint64_t idx)
{
	inst xs[3]; int n = 1 + (int)vh_below(3), i; unsigned ops, k;
	uint64_t uniq = 1; unsigned did_dup = 0, did_del = 0, did_re = 0, maxc = 0;
	static unsigned char pool[1 << 16];
	bulk = idx % 64 == 7 ? 1 : idx % 512 == 11 ? (vh_thorough ? 8 : 4) : 0;
	if (bulk) n = 1;
	for (i = 0; i < n; i++) make(&xs[i]);
	ops = 50 + vh_below(vh_chance(20) ? 4000 : 800);
	if (bulk) ops = xs[0].u.n * 3;
	int ins_w = 60, del_w = 20;
	for (k = 0; k < ops; k++) {
		inst *x = &xs[vh_below(n)]; unsigned id = vh_below(x->u.n); int w = (int)vh_below(100);
		if (bulk) { if (k % (ops / 6) == 0) { ins_w = k < ops / 2 ? 97 : 20; del_w = k < ops / 2 ? 1 : k < ops * 2 / 3 ? 75 : 30; } }
		else if (k % 128 == 0) { int ph = (int)vh_below(4); ins_w = ph == 0 ? 80 : ph == 1 ? 10 : ph == 2 ? 40 : 30; del_w = ph == 0 ? 5 : ph == 1 ? 75 : ph == 2 ? 40 : 10; }
		if (w < ins_w) {
			const void *kp = vh_chance(30) ? x->u.alias[id] : x->u.key[id]; int r;
			const void *d = vh_chance(5) ? NULL : (const void *)(pool + (uniq++ & 0xffff));
			int again = x->in[id];
			r = INSERT(x->t, kp, d);
			vh_op("%d: insert %s datum %p -> %d", (int)(x - xs), hk_show(&x->u, id), d, r);
			vh_count("insertions", 1);
			VH_CHECK(r == (x->in[id] ? 1 : 0), "insert-result", "insert of %s returned %d with key present=%d (%u present, %s)", hk_show(&x->u, id), r, x->in[id], x->count, hk_kind_name[x->u.kind]);
			if (again) did_dup++;
			else { if (x->stored[id]) did_re++; x->in[id] = 1; x->stored[id] = kp; x->datum[id] = d; x->count++; if (x->count > maxc) maxc = x->count; }
			one_lookup(x, id);
		} else if (w < ins_w + del_w) {
			int r = DELETE(x->t, hk_ask(&x->u, id));
			vh_op("%d: delete %s -> %d", (int)(x - xs), hk_show(&x->u, id), r);
			vh_count("deletions", 1);
			VH_CHECK(r == (x->in[id] ? 0 : 1), "delete-result", "delete of %s returned %d with key present=%d", hk_show(&x->u, id), r, x->in[id]);
			if (x->in[id]) { x->in[id] = 0; x->count--; did_del++; }
			one_lookup(x, id);
		} else {
			one_lookup(x, id);
			if (vh_chance(2)) agree(x);
		}
		if (vh_chance(1) && x->u.n < 700) sweep(x, 1);
#if SETS
		if (vh_chance(10)) VH_CHECK((unsigned)set_count(x->t) == x->count, "count-wrong", "count is %d, should be %u", set_count(x->t), x->count);
#endif
	}
	for (i = 0; i < n; i++) { sweep(&xs[i], 1); agree(&xs[i]); vh_digest(xs[i].count * 131 + xs[i].u.kind); vh_digest(vh_hash_bytes(xs[i].in, xs[i].u.n)); }
	vh_max("largest container", maxc);
	if (did_dup && did_del && maxc > 4) vh_nontrivial();
	vh_count("re-insertions after deletion", did_re);
	if (idx < 2) vh_sample("%d %s(s), first %s with %u keys; %u operations, %u duplicate insertions, %u deletions, peak %u", n, WHAT, hk_kind_name[xs[0].u.kind], xs[0].u.n, ops, did_dup, did_del, maxc);
	/* destroy in random order, the others still exact afterwards */
	while (n) {
		int j = (int)vh_below(n);
		unmake(&xs[j]);
		xs[j] = xs[--n];
		for (i = 0; i < n; i++) if (xs[i].u.n < 300) sweep(&xs[i], 1);
	}
}
