/* facil.h -- seeded workloads over every facility of the library, used to watch cycles (C28),
   failing allocations (C29) and mixed use (C31).

   Each workload is a function of its seed and size only: its digest collects results a caller
   sees, never addresses or times, so that two runs of one workload have to agree.  All library
   calls stand inside L(..).  A workload can give way (fac_yield) to others, nested. */
#ifndef FACIL_H
#define FACIL_H
#include "vh.h"
static void fac_enter(void); static void fac_leave(void);     /* of the driver */
#define L(...) do { fac_enter(); __VA_ARGS__; fac_leave(); } while (0)
typedef struct fac { uint64_t s, dig; int depth; } fac;
static int fac_nest_percent, fac_nest_max = 3; static unsigned long fac_calls[32], fac_nested; static unsigned long fac_big_len;
static int fac_no_redirect; static char fac_dir[2000];              /* scratch directory of this process */
static uint64_t fac_u(fac *f) { uint64_t z = (f->s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static unsigned fac_n(fac *f, unsigned n) { return n ? (unsigned)(fac_u(f) % n) : 0; }
static void fac_d(fac *f, uint64_t v) { f->dig = vh_mix(f->dig, v); }
static void fac_ds(fac *f, const char *s) { fac_d(f, s ? vh_hash_bytes(s, strlen(s)) : 7); }
static void fac_yield(fac *f);

/* ---- a stream in static storage ---- */
static char fac_text[1 << 16]; static size_t fac_len; static FILE *fac_out;
static ssize_t fac_cookie(void *c, const char *b, size_t n) { size_t m = n; (void)c; if (fac_len + m > sizeof fac_text - 1) m = sizeof fac_text - 1 - fac_len; memcpy(fac_text + fac_len, b, m); fac_len += m; return n; }
static void fac_setup(void)
{
	static char buf[4096]; cookie_io_functions_t io = { NULL, fac_cookie, NULL, NULL };
	fac_out = fopencookie(NULL, "w", io); setvbuf(fac_out, buf, _IOFBF, sizeof buf);
	snprintf(fac_dir, sizeof fac_dir, "%s", vh_scratch);
}
static char fac_logtext[1 << 18]; static size_t fac_loglen;
static ssize_t fac_logcookie(void *c, const char *b, size_t n) { size_t m = n; (void)c; if (fac_loglen + m > sizeof fac_logtext - 1) m = sizeof fac_logtext - 1 - fac_loglen; memcpy(fac_logtext + fac_loglen, b, m); fac_loglen += m; return n; }
static FILE *fac_logstream(void) { static char buf[4096]; cookie_io_functions_t io = { NULL, fac_logcookie, NULL, NULL }; FILE *f = fopencookie(NULL, "w", io); setvbuf(f, buf, _IOFBF, sizeof buf); fac_loglen = 0; return f; }
static const char *fac_printed(void) { fflush(fac_out); fac_text[fac_len] = 0; fac_len = 0; return fac_text; }

/* ---- keys: strings in static storage, of many shapes ---- */
#define FAC_KEYS 512
static char fac_key[FAC_KEYS][96];
static void fac_keys(void)
{
	int i; for (i = 0; i < FAC_KEYS; i++) switch (i % 7) {
	case 0: sprintf(fac_key[i], "%d", i); break; case 1: sprintf(fac_key[i], "a longer key with number %d and some more text behind it", i); break;
	case 2: sprintf(fac_key[i], "\xff\x80%d\xfe", i); break; case 3: if (i > 3) sprintf(fac_key[i], "k%d", i); break;
	case 4: sprintf(fac_key[i], "%d \t\n", i); break; case 5: sprintf(fac_key[i], "pre%dpost", i); break; default: sprintf(fac_key[i], "%08d", i * 7919); }
}
static uint64_t fac_acc; static int fac_stop;
static int fac_it2(const void *k, const void *d) { fac_acc += vh_hash_bytes(k, strlen(k)) * 3 + (uintptr_t)d; return fac_stop && !--fac_stop; }
static int fac_it2a(const void *k, const void *d, void *a) { *(uint64_t *)a += vh_hash_bytes(k, strlen(k)) * 3 + (uintptr_t)d; return 0; }
static int fac_it1(const void *k) { fac_acc += vh_hash_bytes(k, strlen(k)); return 0; }
static int fac_it1a(const void *k, void *a) { *(uint64_t *)a += vh_hash_bytes(k, strlen(k)); return 0; }
static int fac_its(const char *k) { return fac_it1(k); }
static int fac_itsa(const char *k, void *a) { return fac_it1a(k, a); }
static void *fac_num(uint64_t n) { return (void *)(uintptr_t)n; }

/* ---- the workloads ---- */
static void w_hash(fac *f, int n)
{
	hsh_HashTable t = NULL; int i, r = 0; const void *d; hsh_Stats s; hsh_Position p; void *k, *v;
	L(t = hsh_create(NULL, NULL)); if (fac_n(f, 2)) L(hsh_key_strings(t));
	for (i = 0; i < n; i++) {
		int j = fac_n(f, FAC_KEYS);
		switch (fac_n(f, 8)) {
		case 0: case 1: case 2: case 3: L(r = hsh_insert(t, fac_key[j], fac_num(j + 1))); fac_d(f, r); break;
		case 4: L(r = hsh_delete(t, fac_key[j])); fac_d(f, r); break;
		default: L(d = hsh_retrieve(t, fac_key[j])); fac_d(f, (uintptr_t)d); }
		if (i % 16 == 9) fac_yield(f);
	}
	fac_acc = 0; L(hsh_iterate(t, fac_it2)); fac_d(f, fac_acc);
	{ uint64_t a = 0; L(hsh_iterate_arg(t, fac_it2a, &a)); fac_d(f, a); }
	{ uint64_t a = 0; fac_enter(); HSH_ITERATE(t, p, k, v) a += (uintptr_t)v; HSH_ITERATE_END(t); fac_leave(); fac_d(f, a); }
	L(s = hsh_get_stats(t)); fac_d(f, s->entries); fac_d(f, s->misses); fac_d(f, s->retrievals); xfree(s);
	L(hsh_print_stats(t, fac_out)); fac_d(f, strlen(fac_printed()) > 10);
	fac_yield(f);
	L(hsh_destroy(t));
}
static void w_set(fac *f, int n)
{
	set_Set s[4], r = NULL; int i, m; uint64_t a = 0; set_Stats st; set_Position p; void *e;
	for (i = 0; i < 4; i++) L(s[i] = set_create(NULL, NULL));
	for (i = 0; i < n; i++) {
		int j = fac_n(f, FAC_KEYS), q = fac_n(f, 4), w = fac_n(f, 4);
		switch (fac_n(f, 16)) {
		case 0: L(m = set_delete(s[q], fac_key[j])); fac_d(f, m); break;
		case 1: L(m = set_member(s[q], fac_key[j])); fac_d(f, m); break;
		case 2: L(r = set_union(s[q], s[w])); goto res;
		case 3: L(r = set_inter(s[q], s[w])); goto res;
		case 4: L(r = set_diff(s[q], s[w]));
		res: L(m = set_count(r)); fac_d(f, m); if (fac_n(f, 3)) L(set_destroy(r)); else { L(set_destroy(s[q])); s[q] = r; } break;
		case 5: L(set_add(s[q], s[w])); break;
		case 6: if (q != w) L(set_del(s[q], s[w])); break;
		case 7: L(m = set_equal(s[q], s[w])); fac_d(f, m); break;
		default: L(m = set_insert(s[q], fac_key[j])); fac_d(f, m); }
		if (i % 16 == 9) fac_yield(f);
	}
	for (i = 0; i < 4; i++) {
		fac_acc = 0; L(set_iterate(s[i], fac_it1)); fac_d(f, fac_acc); a = 0; L(set_iterate_arg(s[i], fac_it1a, &a)); fac_d(f, a);
		a = 0; fac_enter(); SET_ITERATE(s[i], p, e) a += strlen(e); SET_ITERATE_END(s[i]); fac_leave(); fac_d(f, a);
		L(st = set_get_stats(s[i])); fac_d(f, st->entries); xfree(st); L(set_print_stats(s[i], fac_out)); fac_printed();
		L(m = set_count(s[i])); fac_d(f, m); L(set_destroy(s[i]));
	}
}
static void w_list(fac *f, int n)
{
	lst_List l[3]; int i, m = 0; unsigned u = 0; void *v = NULL; lst_Position p = NULL, p2; void *e, *e2; uint64_t a = 0;
	for (i = 0; i < 3; i++) L(l[i] = lst_create());
	for (i = 0; i < n; i++) {
		int j = fac_n(f, FAC_KEYS), q = fac_n(f, 3); L(u = lst_length(l[q]));
		switch (fac_n(f, 12)) {
		case 0: L(lst_push(l[q], fac_key[j])); break;
		case 1: L(v = lst_pop(l[q])); fac_ds(f, v); break;
		case 2: L(v = lst_top(l[q])); fac_ds(f, v); break;
		case 3: L(v = lst_nth_get(l[q], 1 + fac_n(f, u + 1))); fac_ds(f, v); break;
		case 4: if (u) L(lst_nth_set(l[q], 1 + fac_n(f, u), fac_key[j])); break;
		case 5: L(m = lst_member(l[q], fac_key[j])); fac_d(f, m); break;
		case 6: if (!fac_n(f, 6)) L(lst_truncate(l[q], fac_n(f, u + 2))); break;
		case 7: if (u && !fac_n(f, 6)) { L(p = lst_nth_position(l[q], 1 + fac_n(f, u)); lst_truncate_position(l[q], p)); } break;
		default: L(lst_append(l[q], fac_key[j])); }
		fac_d(f, u); if (i % 16 == 9) fac_yield(f);
	}
	fac_enter(); LST_ITERATE2(l[0], l[1], p, p2, e, e2) a = vh_mix(a, strlen(e) * 100 + strlen(e2)); fac_leave(); fac_d(f, a);
	for (i = 0; i < 3; i++) {
		fac_acc = 0; L(lst_iterate(l[i], fac_it1)); fac_d(f, fac_acc); a = 0; L(lst_iterate_arg(l[i], fac_it1a, &a)); fac_d(f, a);
		a = 0; fac_enter(); LST_ITERATE(l[i], p, e) a = vh_mix(a, strlen(e)); fac_leave(); fac_d(f, a); L(lst_destroy(l[i]));
	}
}
static void w_stack(fac *f, int n)
{
	stk_Stack s = NULL; int i, m = 0; void *v = NULL; L(s = stk_create());
	for (i = 0; i < n; i++) {
		switch (fac_n(f, 5)) { case 0: L(v = stk_pop(s)); fac_ds(f, v); break; case 1: L(v = stk_top(s)); fac_ds(f, v); break; case 2: L(m = stk_isempty(s)); fac_d(f, m); break; default: L(stk_push(s, fac_key[fac_n(f, FAC_KEYS)])); }
		if (i % 16 == 9) fac_yield(f);
	}
	L(stk_destroy(s));
}
static int fac_cmp(const void *a, const void *b) { return strcmp(a, b); }
static const void *fac_id(const void *d) { return d; }
static const char *fac_show(const void *d) { return d; }
static int fac_sl(const void *d) { fac_acc = vh_mix(fac_acc, vh_hash_bytes(d, strlen(d))); return 0; }
static int fac_sla(const void *d, void *a) { *(uint64_t *)a = vh_mix(*(uint64_t *)a, strlen(d)); return 0; }
static void w_sl(fac *f, int n)
{
	static unsigned char in[4][FAC_KEYS]; static int d; unsigned char *m = in[d++ & 3]; sl_List s = NULL; int i; const void *v = NULL; uint64_t a = 0; memset(m, 0, FAC_KEYS);
	L(s = sl_create(fac_cmp, fac_id, fac_n(f, 2) ? fac_show : NULL));
	for (i = 0; i < n; i++) {
		int j = fac_n(f, FAC_KEYS);
		switch (fac_n(f, 5)) { case 0: if (m[j]) { L(sl_delete(s, fac_key[j])); m[j] = 0; } break; case 1: L(v = sl_find(s, fac_key[j])); fac_ds(f, v); break; default: if (!m[j]) { L(sl_insert(s, fac_key[j])); m[j] = 1; } }
		if (i % 16 == 9) fac_yield(f);
	}
	fac_acc = 0; L(sl_iterate(s, fac_sl)); fac_d(f, fac_acc); L(sl_iterate_arg(s, fac_sla, &a)); fac_d(f, a); L(sl_destroy(s)); d--;
}
/* pieces of text for growing; sometimes big */
static const char *fac_piece(fac *f, int *len)
{
	static char big[1 << 20]; static int done; int i; unsigned r = fac_n(f, 24);
	if (!done) { done = 1; for (i = 0; i < (int)sizeof big; i++) big[i] = 1 + i % 255; }
	if (r == 0 && fac_big_len) { *len = (int)(fac_u(f) % (fac_big_len < sizeof big ? fac_big_len : sizeof big)); return big; }
	if (r < 4) { *len = 0; return ""; }
	if (r < 6) { *len = fac_n(f, 3000); return big + fac_n(f, 1000); }
	i = fac_n(f, FAC_KEYS); *len = fac_n(f, strlen(fac_key[i]) + 1); return fac_key[i];
}
static void fac_pool(fac *f, str_Pool p, int n, int global)
{
	int i, m = 0, len; const char *s = NULL, *q;
	for (i = 0; i < n; i++) {
		int j = fac_n(f, FAC_KEYS);
		switch (fac_n(f, 6)) {
		case 0: if (!global) { L(m = str_pool_exists(p, fac_key[j])); fac_d(f, m); } else { L(m = str_exists(fac_key[j])); } break;
		case 1: if (global) L(s = str_copy(fac_key[j])); else L(s = str_pool_copy(p, fac_key[j])); fac_ds(f, s); break;
		case 2: q = fac_piece(f, &len); if (global) L(s = str_copyn(q, len)); else L(s = str_pool_copyn(p, q, len)); fac_ds(f, s); break;
		case 3: { int k = 1 + fac_n(f, 4); while (k--) { q = fac_piece(f, &len); if (global) L(str_grow(q, len)); else L(str_pool_grow(p, q, len)); } if (global) L(s = str_finish()); else L(s = str_pool_finish(p)); fac_ds(f, s); break; }
		case 4: if (global) { if (fac_n(f, 2)) { L(s = str_unique("uniq")); fac_d(f, !strncmp(s, "uniq", 4)); } else { q = fac_piece(f, &len); L(s = str_findn(q, len)); fac_ds(f, s); } break; }
		/* fall through */
		default: if (global) L(s = str_find(fac_key[j])); else L(s = str_pool_find(p, fac_key[j])); fac_ds(f, s); }
		if (i % 16 == 9) fac_yield(f);
	}
}
static void w_pool(fac *f, int n)
{
	str_Pool p = NULL; str_Stats s; uint64_t a = 0; str_Position q; const char *k;
	L(p = str_pool_create()); fac_pool(f, p, n, 0);
	L(s = str_pool_get_stats(p)); fac_d(f, s->count); xfree(s); L(str_pool_print_stats(p, fac_out)); fac_printed();
	fac_acc = 0; L(str_pool_iterate(p, fac_its)); fac_d(f, fac_acc); L(str_pool_iterate_arg(p, fac_itsa, &a)); fac_d(f, a);
	a = 0; fac_enter(); STR_ITERATE(p, q, k) a += strlen(k); STR_ITERATE_END(p); fac_leave(); fac_d(f, a);
	L(str_pool_destroy(p));
}
static int busy_str;
static void w_str(fac *f, int n)
{
	str_Stats s; if (busy_str) return;
	busy_str = 1; fac_pool(f, NULL, n, 1); busy_str = 0;
	L(s = str_get_stats()); if (s) xfree(s); L(str_print_stats(fac_out)); fac_printed();
}
static void w_mem(fac *f, int n)
{
	mem_String m = NULL; int i, len; const char *s = NULL, *q; mem_StringStats st; L(m = mem_create_strings());
	for (i = 0; i < n; i++) {
		switch (fac_n(f, 3)) {
		case 0: L(s = mem_strcpy(m, fac_key[fac_n(f, FAC_KEYS)])); break;
		case 1: q = fac_piece(f, &len); L(s = mem_strncpy(m, q, len)); break;
		default: { int k = 1 + fac_n(f, 4); while (k--) { q = fac_piece(f, &len); L(mem_grow(m, q, len)); } L(s = mem_finish(m)); } }
		fac_ds(f, s); if (i % 16 == 9) fac_yield(f);
	}
	L(st = mem_get_string_stats(m)); fac_d(f, st->count); fac_d(f, st->bytes); xfree(st); L(mem_print_string_stats(m, fac_out)); fac_printed(); L(mem_destroy_strings(m));
}
static void w_obj(fac *f, int n)
{
	int size = 1 + fac_n(f, 200), i, live = 0; void *o[64], *v = NULL; mem_Object m = NULL; mem_ObjectStats s; L(m = mem_create_objects(size));
	for (i = 0; i < n; i++) {
		if (live < 64 && fac_n(f, 5) > 1) { if (fac_n(f, 2)) { L(v = mem_get_empty_object(m)); fac_d(f, vh_hash_bytes(v, size)); } else L(v = mem_get_object(m)); memset(v, i, size); o[live++] = v; }
		else if (live) { int j = fac_n(f, live); fac_d(f, vh_hash_bytes(o[j], size)); L(mem_free_object(m, o[j])); o[j] = o[--live]; }
		if (i % 16 == 9) fac_yield(f);
	}
	for (i = 0; i < live; i++) fac_d(f, vh_hash_bytes(o[i], size));
	L(s = mem_get_object_stats(m)); fac_d(f, s->used); xfree(s); L(mem_print_object_stats(m, fac_out)); fac_printed(); L(mem_destroy_objects(m));
}
static void w_arg(fac *f, int n)
{
	arg_List a = NULL; int i, len, c = 0, ac = 0; const char *q, *g = NULL; char **av = NULL; L(a = arg_create());
	for (i = 0; i < n; i++) {
		switch (fac_n(f, 4)) {
		case 0: L(arg_add(a, fac_key[fac_n(f, FAC_KEYS)])); break;
		case 1: q = fac_piece(f, &len); L(arg_addn(a, q, len)); break;
		case 2: { int k = 1 + fac_n(f, 4); while (k--) { q = fac_piece(f, &len); L(arg_grow(a, q, len)); } L(arg_finish(a)); break; }
		default: L(c = arg_count(a)); if (c) { L(g = arg_get(a, fac_n(f, c))); fac_ds(f, g); } }
		if (i % 16 == 9) fac_yield(f);
	}
	L(arg_get_vector(a, &ac, &av)); fac_d(f, ac); for (i = 0; i < ac; i++) fac_ds(f, av[i]); fac_d(f, av[ac] != NULL); L(arg_destroy(a));
}
static void w_argify(fac *f, int n)
{
	static const char cls[] = "ab \t\n\"'\\\\x\x80\xff"; static char b[1 << 17]; int i, k, m; arg_List a = NULL; int ac = 0; char **av = NULL;
	for (i = 0; i < n; i += 8) {
		m = fac_n(f, fac_big_len && !fac_n(f, 10) ? (int)(fac_big_len < sizeof b ? fac_big_len : sizeof b - 1) : 60); for (k = 0; k < m; k++) b[k] = cls[fac_n(f, sizeof cls - 1)]; b[m] = 0;
		L(a = arg_argify(b, fac_n(f, 4))); L(arg_get_vector(a, &ac, &av)); fac_d(f, ac); for (k = 0; k < ac; k++) fac_ds(f, av[k]); fac_yield(f); L(arg_destroy(a));
	}
}
static void w_code(fac *f, int n)
{
	int i; unsigned long v = 0; const char *s = NULL; char r[8]; unsigned long w;
	for (i = 0; i < n; i++) switch (fac_n(f, 8)) {
	case 0: v = fac_u(f) >> fac_n(f, 64) & 0xffffffffUL; L(s = b64_encode(v)); fac_ds(f, s); { char c[16]; snprintf(c, sizeof c, "%s", s); L(w = b64_decode(c)); fac_d(f, w); L(w = b64_decode_buf(c, strlen(c))); fac_d(f, w); } break;
	case 1: v = fac_u(f) % 8031810176UL; L(s = b26_encode(v)); fac_ds(f, s); { char c[16]; snprintf(c, sizeof c, "%s", s); L(w = b26_decode(c)); fac_d(f, w); } break;
	case 2: v = fac_u(f); { int b = fac_n(f, 64), m; L(bit_set(&v, b)); L(m = bit_tst(&v, b)); fac_d(f, m); L(bit_clr(&v, b)); L(m = bit_tst(&v, b)); fac_d(f, m); L(m = bit_cnt(&v)); fac_d(f, m); } break;
	case 3: { int m; L(m = prm_is_prime(fac_n(f, 1u << 20))); fac_d(f, m); L(v = prm_next_prime(fac_n(f, 1u << 24))); fac_d(f, v); } break;
	case 4: L(s = txt_soundex(fac_key[fac_n(f, FAC_KEYS)])); fac_ds(f, s); break;
	case 5: L(txt_soundex2(fac_key[fac_n(f, FAC_KEYS)], r)); fac_ds(f, r); break;
	case 6: { int m; L(v = hsh_string_hash(fac_key[fac_n(f, FAC_KEYS)])); L(w = hsh_pointer_hash(fac_num(fac_u(f)))); (void)w; L(m = hsh_string_compare(fac_key[3], fac_key[fac_n(f, 8)])); fac_d(f, m != 0); L(m = hsh_pointer_compare(fac_num(1), fac_num(fac_n(f, 3)))); fac_d(f, m != 0); } break;
	default: { void *p = NULL; int c = fac_n(f, 300); L(p = xmalloc(c + 1)); memset(p, c, c + 1); L(p = xrealloc(p, c + 200)); fac_d(f, ((unsigned char *)p)[c]); L(xfree(p)); L(p = xcalloc(3, c + 1)); fac_d(f, vh_hash_bytes(p, 3 * (c + 1))); L(xfree(p)); L(p = xstrdup(fac_key[fac_n(f, FAC_KEYS)])); fac_ds(f, p); L(xfree(p)); }
	}
}
static int busy_flags, fac_flags_known;
#define FLAG_OF(i) ((unsigned long)(i) % 3 << 30 | 1UL << (i))
static void w_flags(fac *f, int n)
{
	static char nm[24][16]; int i, m, left = 0; const char *s = NULL; if (busy_flags) return; busy_flags = 1;
	if (!fac_flags_known) for (i = 0; i < 24; i++) { sprintf(nm[i], "flag%d", i); if (i < 12) L(dbg_register(FLAG_OF(i), nm[i])); else L(flg_register(FLAG_OF(i), nm[i])); }
	if (!fac_flags_known) for (i = 0; i < 24; i++) { if (i < 12) L(m = dbg_test(FLAG_OF(i))); else L(m = flg_test(FLAG_OF(i))); left += !!m; }   /* newly registered: all off */
	fac_flags_known = 1; fac_d(f, left);
	for (i = 0; i < 24; i++) { char c[24]; sprintf(c, "-flag%d", i); if (i < 12) L(dbg_set(c)); else L(flg_set(c)); }
	for (i = 0; i < n; i++) {
		int j = fac_n(f, 24); char c[24]; sprintf(c, "%sflag%d", fac_n(f, 3) ? fac_n(f, 2) ? "+" : "" : "-", j);
		switch (fac_n(f, 5)) {
		case 0: if (j < 12) L(dbg_set(c)); else L(flg_set(c)); break;
		case 1: if (j < 12) { if (fac_n(f, 2)) L(dbg_set_flag(FLAG_OF(j))); else L(dbg_unset_flag(FLAG_OF(j))); } break;
		case 2: if (!fac_n(f, 8)) { L(dbg_list(fac_out)); L(flg_list(fac_out)); fac_printed(); } break;
		case 3: if (j >= 12) { L(s = flg_name(FLAG_OF(j))); fac_ds(f, s); } break;
		default: if (j < 12) L(m = dbg_test(FLAG_OF(j))); else L(m = flg_test(FLAG_OF(j))); fac_d(f, m != 0); }
		if (i % 16 == 9) fac_yield(f);
	}
	busy_flags = 0;
}
static int busy_log; static unsigned long fac_log_no;
static void fac_marks(fac *f, const char *t) { while ((t = strstr(t, "MSG<"))) { const char *e = strchr(t, '\n'); fac_d(f, vh_hash_bytes(t, e ? (size_t)(e - t) : strlen(t))); t += 4; } }
static char *fac_slurp(const char *path, size_t *len) { static char b[1 << 20]; int fd = open(path, O_RDONLY | O_CLOEXEC); ssize_t n, k = 0; if (fd < 0) { *len = 0; b[0] = 0; return b; } while ((n = read(fd, b + k, sizeof b - 1 - k)) > 0) k += n; close(fd); b[k] = 0; *len = k; return b; }
#include <glob.h>
static void w_log(fac *f, int n)
{
	char base[2100], dir[2100], pat[2200]; int i, file = fac_n(f, 3), stream = fac_n(f, 2); glob_t g; size_t len; if (busy_log) return; busy_log = 1;
	if (n > 400) n = 400;
	snprintf(dir, sizeof dir, "%s/log%d-%lu", fac_dir, (int)getpid(), fac_log_no++); snprintf(base, sizeof base, "%s/%s", dir, file == 1 ? "plain" : "r%Y%m");
	L(log_option(fac_n(f, 2) ? LOG_OPTION_FULL : LOG_OPTION_NO_FULL));
	if (file) L(log_file("ident", base));
	if (stream) { FILE *ls = fac_logstream(); L(log_stream("ident", ls)); }
	for (i = 0; i < n; i++) {
		const char *k = fac_key[fac_n(f, FAC_KEYS)]; if (strchr(k, '\n')) k = "text";
		switch (fac_n(f, 4)) {
		case 0: L(log_error("routine", "MSG<%d %s>\n", i, k)); break;
		case 1: if (!fac_n(f, 20)) { if (file) { L(log_file(NULL, NULL)); L(log_file("other", base)); } } break;
		default: L(log_info("MSG<%s %d>\n", k, i)); }
		if (i % 16 == 9) { fac_yield(f); }
	}
	L(log_stream(NULL, NULL)); L(log_file(NULL, NULL)); if (fac_n(f, 2)) L(log_close());
	if (stream) { fac_logtext[fac_loglen] = 0; fac_marks(f, fac_logtext); }
	if (file) {
		snprintf(pat, sizeof pat, "%s/*", dir);
		if (!glob(pat, 0, NULL, &g)) { for (i = 0; i < (int)g.gl_pathc; i++) { fac_marks(f, fac_slurp(g.gl_pathv[i], &len)); unlink(g.gl_pathv[i]); } globfree(&g); }
		rmdir(dir);
	}
	busy_log = 0;
}
static void w_err(fac *f, int n)
{
	int save = dup(2), fd, i, k = 1 + fac_n(f, 3); char path[2100]; size_t len; char *t; (void)n; if (busy_log) { close(save); return; }
	const char *old = err_program_name(); static const char *const nm[3] = { "prog", NULL, "a/b/other" };
	snprintf(path, sizeof path, "%s/err%d-%lu", fac_dir, (int)getpid(), fac_log_no++);
	fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600); 
	for (i = 0; i < k; i++) {
		const char *m = fac_key[fac_n(f, FAC_KEYS)]; if (strchr(m, '\n')) m = "m";
		L(err_set_program_name(nm[fac_n(f, 3)]));
		if (!fac_no_redirect) { fflush(stderr); dup2(fd, 2); } L(err_warning("routine", "MSG<%d %s>\n", i, m)); fflush(stderr); dup2(save, 2);
	}
	close(fd); close(save); L(err_set_program_name(old)); t = fac_slurp(path, &len); fac_marks(f, t); unlink(path);
}
static int busy_src; static int fac_notes;
static void fac_src_body(fac *f, int n)
{
	src_Type tok[64]; char want[64][40]; int wl[64], wo[64], wn[64], nt = 0, i, len, line = 0, off = 0, k; char b[3000]; const char *s = NULL;
	L(src_create()); L(src_new_file("file.c")); L(src_new_line(1)); line = 1;
	for (i = 0; i < n; i++) {
		switch (fac_n(f, 6)) {
		case 0: L(src_new_file(fac_key[fac_n(f, 30)])); break;
		case 1: if (!fac_n(f, 4)) { line = fac_n(f, 100000); L(src_new_line(line)); } break;
		case 2: k = fac_n(f, 6); len = k < 2 ? sprintf(b, "# %d%s", fac_n(f, 1000), k ? "\n" : "") : k == 2 ? sprintf(b, "#line %d 'a name' 1 3\n", fac_n(f, 1000)) : sprintf(b, "# %d \"inc%d.h\"\n", fac_n(f, 1000), fac_n(f, 9)); L(src_cpp_line(b, len)); break;
		default:
			len = fac_n(f, 200); for (k = 0; k < len; k++) b[k] = " \tab(xy;)"[fac_n(f, 9)]; b[len++] = '\n'; if (i == 0 && fac_big_len) { memset(b, 'q', 2998); b[2998] = '\n'; len = 2999; }
			L(s = src_line(b, len)); fac_d(f, vh_hash_bytes(s, len)); off = 0;
			for (k = 0; k < 4; k++) { int w = 1 + fac_n(f, 6); if (off + w > len) break; { src_Type t = NULL; L(t = src_get(w)); if (fac_n(f, 2)) { src_advance(w); off += w; } else { L(src_advance(1)); off++; } if (nt < 64) { tok[nt] = t; snprintf(want[nt], 40, "%s", src_filename(t)); wl[nt] = src_linenumber(t); wo[nt] = src_offset(t); wn[nt] = src_length(t); nt++; } } }
		}
		if (i % 16 == 9) fac_yield(f);
	}
	for (i = 0; i < nt; i++) {
		L(s = src_filename(tok[i])); fac_ds(f, s); L(k = src_linenumber(tok[i])); fac_d(f, k); L(k = src_offset(tok[i])); fac_d(f, k); L(k = src_length(tok[i])); fac_d(f, k);
		if (strcmp(want[i], src_filename(tok[i])) || wl[i] != src_linenumber(tok[i]) || wo[i] != src_offset(tok[i]) || wn[i] != src_length(tok[i])) fac_d(f, 0xdead);
		if (i % 8 == 0) { fac_enter(); src_parse_error(fac_out, tok[i], "parse error, expecting `NAME'"); src_print_error(fac_out, tok[i], "E %d", i); src_print_message(fac_out, tok[i], "M %s", "m"); src_print_line(fac_out, tok[i]); fac_leave(); fac_ds(f, fac_printed()); }
		L(s = src_source_line(tok[i])); fac_d(f, vh_hash_bytes(s, strcspn(s, "\n")));
	}
	{ src_Stats st = NULL; L(st = src_get_stats()); fac_d(f, st->lines_used); xfree(st); L(src_print_stats(fac_out)); fac_printed(); }
	L(src_destroy());
}
static void w_src(fac *f, int n) { if (busy_src) return; busy_src = 1; fac_src_body(f, n); busy_src = 0; }
static int busy_prs;
static void w_prs(fac *f, int n)
{
	int i; const char *s = NULL; char a[40], b[40]; if (busy_prs) return; busy_prs = 1;
	for (i = 0; i < n; i += 3) {
		int j = fac_n(f, 40); sprintf(a, "SYMBOL%d", j); sprintf(b, "conc%d", j);
		if (fac_n(f, 2)) L(prs_register_concrete(a, b)); else { L(s = prs_concrete(a)); fac_d(f, s && strcmp(s, b) != 0); }
	}
	busy_prs = 0;
}
static int busy_tim; static unsigned char fac_tim_known[12];
static void w_tim(fac *f, int n)
{
	static char nm[12][16]; int i; double r = 0; if (busy_tim) return; busy_tim = 1;
	for (i = 0; i < 12; i++) sprintf(nm[i], "timer %d", i);
	for (i = 0; i < n; i += 2) {
		int j = fac_n(f, 12);
		if (!fac_tim_known[j]) { fac_tim_known[j] = 1; L(tim_start(nm[j])); }
		switch (fac_n(f, 6)) { case 0: L(tim_start(nm[j])); break; case 1: L(tim_stop(nm[j])); break; case 2: if (!fac_n(f, 4)) { L(tim_reset(nm[j])); } break; case 3: L(tim_print_timer(fac_out, nm[j])); fac_printed(); break; case 4: L(tim_print_timers(fac_out)); fac_printed(); break;
		default: L(r = tim_get_real(nm[j])); fac_d(f, r > -1); L(r = tim_get_user(nm[j])); fac_d(f, r > -1); L(r = tim_get_system(nm[j])); fac_d(f, r > -1); }
		if (i % 16 == 8) fac_yield(f);
	}
	busy_tim = 0;
}
static int fac_pr_zero(const char *b, int n) { int i; for (i = 0; i < n; i++) if (!b[i]) return 1; return 0; }
static void w_pr(fac *f, int n)
{
	static char in[60000], out[60001]; int i, k, len, r = 0, a = -1, b = -1; ssize_t m, got; (void)n; (void)fac_pr_zero;
	for (i = 0; i < 2; i++) {
		len = fac_n(f, fac_n(f, 3) ? 300 : 60000); for (k = 0; k < len; k++) in[k] = 'a' + (k * 7 + i) % 26;
		switch (fac_n(f, 4)) {
		case 0: L(r = pr_filter("tr a-z A-Z", in, len, out, sizeof out)); fac_d(f, r); fac_d(f, vh_hash_bytes(out, r > 0 ? r : 0)); break;
		case 1: L(r = pr_spawn("sh -c 'exit 3'")); fac_d(f, r); break;
		case 2: L(r = pr_spawn("true")); fac_d(f, r); break;
		default:
			if (len > 4000) len = 4000;
			L(r = pr_open("cat", PR_CREATE_STDIN | PR_CREATE_STDOUT, &a, &b, NULL)); fac_d(f, r > 0); m = write(a, in, len); fac_d(f, m); fac_yield(f); L(k = pr_close_nowait(a)); fac_d(f, k == r);
			for (got = 0; (m = read(b, out + got, sizeof out - got)) > 0; got += m) ;
			fac_d(f, got); fac_d(f, vh_hash_bytes(out, got)); L(k = pr_close(b)); fac_d(f, k);
		}
	}
}
typedef void fac_fn(fac *, int);
static const struct { const char *name; fac_fn *fn; } fac_tab[] = {
	{ "hash", w_hash }, { "set", w_set }, { "list", w_list }, { "stack", w_stack }, { "skip list", w_sl }, { "string pool", w_pool }, { "global strings", w_str }, { "string memory", w_mem }, { "object memory", w_obj }, { "arguments", w_arg }, { "argify", w_argify },
	{ "codes", w_code }, { "flags", w_flags }, { "log", w_log }, { "warnings", w_err }, { "source", w_src }, { "spellings", w_prs }, { "timers", w_tim }, { "processes", w_pr } };
#define FAC_N ((int)(sizeof fac_tab / sizeof *fac_tab))
#define FAC_PR (FAC_N - 1)
static uint64_t fac_run_at(int which, uint64_t seed, int n, int depth)
{
	fac f = { seed, 0, depth }; fac_calls[which]++; fac_tab[which].fn(&f, n); return f.dig;
}
static uint64_t fac_ys = 1; /* the stream that decides about nesting */
static void fac_yield(fac *f)
{
	fac y = { fac_ys, 0, 0 }; unsigned k; uint64_t sd;
	if (!fac_nest_percent || f->depth >= fac_nest_max || fac_n(&y, 100) >= (unsigned)fac_nest_percent) { fac_ys = y.s; return; }
	do k = fac_n(&y, FAC_N); while (k == FAC_PR && fac_n(&y, 8));
	sd = fac_u(&y); fac_ys = y.s; fac_nested++;
	{ uint64_t acc = fac_acc; fac_run_at(k, sd, 10 + fac_n(&y, 40), f->depth + 1); fac_acc = acc; }
}
/* after maa_shutdown */
static void fac_forgotten(void) { fac_flags_known = 0; memset(fac_tim_known, 0, sizeof fac_tim_known); }
#endif
