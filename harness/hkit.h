/* hkit.h -- key material and hash functions for the hash table and set monitors */
#ifndef HKIT_H
#define HKIT_H
#include "vh.h"
#include <ctype.h>

typedef struct { uint64_t canary1; uint32_t id; uint32_t pad; uint64_t canary2; } hk_rec;

enum hk_kind { HK_STR_DEFAULT, HK_STR_EXPLICIT, HK_PTR, HK_STR_CONST, HK_STR_LOW, HK_STR_NESTED, HK_REC_ID, HK_REC_HIGH, HK_REC_MAX, HK_STR_NOCASE, HK_REC_TWO, HK_REC_STRIDE, HK_NKINDS };
static const char *hk_kind_name[] = { "string/default", "string/explicit", "pointer", "string/constant-hash", "string/2-bit-hash", "string/functions that use other objects", "record/identity", "record/high-bits", "record/near-ULONG_MAX", "string/case-folding", "record/two-hashes", "record/stride" };

typedef unsigned long (*hk_hash)(const void *);
typedef int (*hk_cmp)(const void *, const void *);

static __attribute__((unused)) unsigned long hk_h_const(const void *k) { (void)k; return 77; }
static __attribute__((unused)) unsigned long hk_h_low(const void *k) { const unsigned char *s = k; unsigned long h = 0; while (*s) h += *s++; return h & 3; }
static __attribute__((unused)) unsigned long hk_h_front(const void *k) { const unsigned char *s = k; unsigned long h = strlen(k); int i; for (i = 0; i < 64 && s[i]; i++) h = h * 33 + s[i]; return h; }
static __attribute__((unused)) unsigned long hk_h_id(const void *k) { return ((const hk_rec *)k)->id; }
static __attribute__((unused)) unsigned long hk_h_high(const void *k) { return (unsigned long)((const hk_rec *)k)->id << 40; }
static __attribute__((unused)) unsigned long hk_h_max(const void *k) { return ULONG_MAX - ((const hk_rec *)k)->id; }
static __attribute__((unused)) unsigned long hk_h_two(const void *k) { return ((const hk_rec *)k)->id & 1; }
static __attribute__((unused)) unsigned long hk_h_stride(const void *k) { return (unsigned long)((const hk_rec *)k)->id * 11UL * 37UL * 113UL; }
static __attribute__((unused)) int hk_c_rec(const void *a, const void *b) { uint32_t x = ((const hk_rec *)a)->id, y = ((const hk_rec *)b)->id; return x < y ? -5 : x > y ? 7 : 0; }
static __attribute__((unused)) int hk_c_str(const void *a, const void *b) { return strcmp(a, b) ? -1 : 0; }
static __attribute__((unused)) unsigned long hk_h_nocase(const void *k) { const unsigned char *s = k; unsigned long h = 5381; while (*s) h = h * 33 + (unsigned)((*s >= 'A' && *s <= 'Z') ? *s + 32 : *s), s++; return h; }
static __attribute__((unused)) int hk_c_nocase(const void *a, const void *b)
{
	const unsigned char *s = a, *t = b;
	for (;; s++, t++) {
		int x = (*s >= 'A' && *s <= 'Z') ? *s + 32 : *s, y = (*t >= 'A' && *t <= 'Z') ? *t + 32 : *t;
		if (x != y) return x < y ? -3 : 3;
		if (!x) return 0;
	}
}

/* hash and comparison functions that use other tables, sets, pools and skip lists themselves */
static hsh_HashTable hk_side_t; static set_Set hk_side_s; static str_Pool hk_side_p; static sl_List hk_side_l; static int hk_side_users; static unsigned hk_side_k;
static char hk_side_w[12][4] = { "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l" };
static __attribute__((unused)) int hk_side_cmp(const void *a, const void *b) { int r = strcmp(a, b); return r < 0 ? -1 : r > 0; }
static __attribute__((unused)) void hk_side_ops(void)
{
	unsigned k = hk_side_k++; const char *w = hk_side_w[k % 12], *v = hk_side_w[(k * 7 + 5) % 12];
	switch (k % 5) {
	case 0: VH_CHECK(hsh_retrieve(hk_side_t, w) == ((k % 12) % 2 ? NULL : w), "inner-lookup-wrong", "a look-up made by a hash or comparison function is wrong"); break;
	case 1: VH_CHECK(set_member(hk_side_s, w) == (k % 12) % 2, "inner-member-wrong", "a membership test made by a hash or comparison function is wrong"); break;
	case 2: VH_CHECK(!strcmp(str_pool_find(hk_side_p, v), v), "inner-find-wrong", "a string interned by a hash or comparison function is wrong"); break;
	case 3: VH_CHECK(sl_find(hk_side_l, v) == v, "inner-find-wrong", "a look-up in a skip list made by a hash or comparison function is wrong"); break;
	default: VH_CHECK(hsh_delete(hk_side_t, "z") && !hsh_insert(hk_side_t, "z", v) && hsh_retrieve(hk_side_t, "z") == v && !hsh_delete(hk_side_t, "z") && !set_insert(hk_side_s, "z") && set_insert(hk_side_s, "z") && !set_delete(hk_side_s, "z"), "inner-update-wrong", "an update made by a hash or comparison function is wrong");
	}
}
static __attribute__((unused)) unsigned long hk_h_nested(const void *k) { unsigned long h = hsh_string_hash(k); hk_side_ops(); return h % 300; }
static __attribute__((unused)) int hk_c_nested(const void *a, const void *b) { hk_side_ops(); return strcmp(a, b); }
static __attribute__((unused)) void hk_side_begin(void)
{
	int i; if (hk_side_users++) return;
	hk_side_t = hsh_create(NULL, NULL); hk_side_s = set_create(NULL, NULL); hk_side_p = str_pool_create(); hk_side_l = sl_create(hk_side_cmp, NULL, NULL);
	for (i = 0; i < 12; i++) { if (i % 2) set_insert(hk_side_s, hk_side_w[i]); else hsh_insert(hk_side_t, hk_side_w[i], hk_side_w[i]); sl_insert(hk_side_l, hk_side_w[i]); }
}
static __attribute__((unused)) void hk_side_end(void) { if (--hk_side_users) return; hsh_destroy(hk_side_t); set_destroy(hk_side_s); str_pool_destroy(hk_side_p); sl_destroy(hk_side_l); }

/* a universe of n distinct keys, each available as a primary object and an equal alias
   at another address */
typedef struct {
	int kind; unsigned n;
	hk_hash hash; hk_cmp cmp;
	void **key;       /* primary */
	void **alias;     /* equal, other address (same pointer for HK_PTR) */
	size_t *len;
	unsigned char *off; /* the alias lies so far into its block */
	uint64_t *sum;
} hk_universe;

static void *hk_string(unsigned i, int salt, size_t *len)
{
	char b[400]; int n;
	switch ((i * 7 + salt) % 9) {
	case 0: n = sprintf(b, "%u", i); break;
	case 1: n = sprintf(b, "key-%u", i); break;
	case 2: n = sprintf(b, "%c%c%u\x80\xff", 0x80 + i % 100, 0xff, i); break;
	case 3: n = sprintf(b, "a long key with blanks and more than sixty-four characters in it, number %u", i); break;
	case 4: n = sprintf(b, "x%u ", i); break;
	case 5: n = sprintf(b, "\t%u\n", i); break;
	case 6: n = sprintf(b, "prefix%uprefix", i); break;
	case 7: n = sprintf(b, "\xc3\xa9t\xc3\xa9%u", i); break;
	default: memset(b, 'q', 200); n = 200 + sprintf(b + 200, "%u", i); break;
	}
	*len = n + 1;
	return vh_exact(b, n + 1);
}

static __attribute__((unused)) void hk_make(hk_universe *u, int kind, unsigned n)
{
	unsigned i; int salt = (int)vh_below(9); size_t common = vh_chance(n <= 100 ? 4 : n > 1500 ? 50 : 10) ? 1000 + vh_below(vh_chance(50) ? 250000 : 10000) : 0; /* some keys share a long beginning */
	u->kind = kind; u->n = n;
	u->key = malloc((n + 1) * sizeof(void *)); u->alias = malloc((n + 1) * sizeof(void *));
	u->len = calloc(n + 1, sizeof(size_t)); u->sum = calloc(n + 1, sizeof(uint64_t)); u->off = calloc(n + 1, 1);
	switch (kind) {
	case HK_STR_DEFAULT: u->hash = NULL; u->cmp = NULL; break;
	case HK_STR_EXPLICIT: u->hash = vh_chance(35) ? NULL : vh_chance(n > 1500 ? 80 : 50) ? hk_h_front : hsh_string_hash; u->cmp = u->hash && vh_chance(50) ? NULL : vh_chance(50) ? hk_c_str : hsh_string_compare; break;
	case HK_PTR: u->hash = hsh_pointer_hash; u->cmp = hsh_pointer_compare; break;
	case HK_STR_CONST: u->hash = hk_h_const; u->cmp = hk_c_str; break;
	case HK_STR_LOW: u->hash = hk_h_low; u->cmp = hk_c_str; break;
	case HK_STR_NESTED: hk_side_begin(); u->hash = hk_h_nested; u->cmp = hk_c_nested; break;
	case HK_REC_ID: u->hash = hk_h_id; u->cmp = hk_c_rec; break;
	case HK_REC_HIGH: u->hash = hk_h_high; u->cmp = hk_c_rec; break;
	case HK_REC_MAX: u->hash = hk_h_max; u->cmp = hk_c_rec; break;
	case HK_REC_TWO: u->hash = hk_h_two; u->cmp = hk_c_rec; break;
	case HK_REC_STRIDE: u->hash = hk_h_stride; u->cmp = hk_c_rec; break;
	case HK_STR_NOCASE: u->hash = hk_h_nocase; u->cmp = hk_c_nocase; break;
	}
	for (i = 0; i < n; i++) {
		if (kind == HK_PTR) {
			/* arbitrary pointer values, among them NULL, small and huge ones */
			uintptr_t v = i == 0 ? 0 : i % 3 == 0 ? (uintptr_t)i : i % 3 == 1 ? (uintptr_t)(-(intptr_t)i) : (uintptr_t)i << 32;
			u->key[i] = u->alias[i] = (void *)v;
			continue;
		}
		if (kind == HK_STR_DEFAULT || kind == HK_STR_EXPLICIT || kind == HK_STR_CONST || kind == HK_STR_LOW || kind == HK_STR_NESTED || kind == HK_STR_NOCASE) {
			if (i == 0 && salt % 2) { u->key[i] = vh_exact("", 1); u->len[i] = 1; }
			else u->key[i] = hk_string(i, salt, &u->len[i]);
			if (common && i < (common > 20000 ? 12 : 40)) { char *p = malloc(common + u->len[i]); memset(p, 'm', common); memcpy(p + common, u->key[i], u->len[i]); free(u->key[i]); u->key[i] = p; u->len[i] += common; vh_max("longest key", u->len[i]); }
			u->off[i] = (unsigned char)vh_below(8); u->alias[i] = (char *)malloc(u->len[i] + u->off[i]) + u->off[i]; memcpy(u->alias[i], u->key[i], u->len[i]);
			if (kind == HK_STR_NOCASE) { char *p; for (p = u->alias[i]; *p; p++) if (*p >= 'a' && *p <= 'z' && (i + (p - (char *)u->alias[i])) % 2) *p -= 32; }
		} else {
			hk_rec *r = malloc(sizeof *r);
			r->canary1 = 0xfeed + i; r->canary2 = ~r->canary1; r->id = i; r->pad = 0;
			u->key[i] = r; u->len[i] = sizeof *r;
			u->alias[i] = vh_exact(r, sizeof *r);
			((hk_rec *)u->alias[i])->pad = 1;
		}
		u->sum[i] = vh_hash_bytes(u->key[i], u->len[i]);
	}
}
/* a key to look up or delete by: the primary, an equal one elsewhere, or an equal one in a
   buffer that held other keys before */
static __attribute__((unused)) const void *hk_ask(hk_universe *u, unsigned i)
{
	const void *r = NULL; int k = (int)vh_below(4);
	if (k >= 2 && u->kind != HK_PTR && vh_chance(60)) r = (u->kind >= HK_REC_ID && u->kind != HK_STR_NOCASE ? vh_same_aligned : vh_same)(k == 2 ? u->key[i] : u->alias[i], u->len[i]);
	return r ? r : k % 2 ? u->alias[i] : u->key[i];
}
/* the caller's keys are untouched and still his */
static __attribute__((unused)) void hk_verify_free(hk_universe *u)
{
	unsigned i;
	for (i = 0; i < u->n; i++) if (u->kind != HK_PTR) {
		VH_CHECK(vh_hash_bytes(u->key[i], u->len[i]) == u->sum[i], "key-bytes-changed", "the library wrote to key %u", i);
		free(u->key[i]); free((char *)u->alias[i] - u->off[i]);
	}
	if (u->kind == HK_STR_NESTED) { hk_side_end(); vh_count("functions that use other objects", 1); }
	free(u->off); free(u->key); free(u->alias); free(u->len); free(u->sum);
}
static __attribute__((unused)) const char *hk_show(hk_universe *u, unsigned i)
{
	static char b[4][120]; static int k; char *p = b[k++ & 3];
	if (u->kind == HK_PTR) snprintf(p, 120, "#%u %p", i, u->key[i]);
	else if (u->kind >= HK_REC_ID && u->kind != HK_STR_NOCASE) snprintf(p, 120, "#%u", i);
	else snprintf(p, 120, "#%u \"%.60s\"", i, vh_quote(u->key[i], strlen(u->key[i])));
	return p;
}
#endif
