/* C31: mixed and large valid use of the whole interface under sanitizers */
#include "vh.h"
#include "facil.h"
static void fac_enter(void) { }
static void fac_leave(void) { }
#ifndef LARGE
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; fac_setup(); fac_keys(); if (!freopen("/dev/null", "w", stdout)) { } }
void vh_case(uint64_t index)
{
	int nw = (int)vh_range(3, vh_chance(20) ? 60 : 15), i, inited = vh_chance(60); unsigned long c0 = fac_nested; char tr[500]; size_t k = 0;
	fac_ys = vh_u64(); fac_nest_percent = vh_chance(70) ? (int)vh_range(1, 60) : 0; fac_big_len = vh_chance(25) ? vh_below(1 << 20) : vh_chance(50) ? vh_below(70000) : 0;
	if (inited) maa_init("mixed");
	for (i = 0; i < nw; i++) {
		int w, n; do w = (int)vh_below(FAC_N); while (w == FAC_PR && vh_chance(85));
		n = vh_chance(3) ? (int)vh_range(3000, 12000) : vh_chance(20) ? (int)vh_range(100, 1500) : (int)vh_range(0, 120);
		if (fac_big_len > 70000 && n > 200) n = 200;
		vh_op("%s/%d big %lu nest %d", fac_tab[w].name, n, fac_big_len, fac_nest_percent); if (k < 440) k += snprintf(tr + k, sizeof tr - k, "%s/%d ", fac_tab[w].name, n);
		vh_digest(w * 100000 + n); vh_digest(fac_run_at(w, vh_u64(), n, 0)); vh_count("workloads", 1);
	}
	if (inited) { maa_shutdown(); fac_forgotten(); vh_count("cycles with shutdown", 1); }
	vh_count("workloads nested", fac_nested - c0); for (i = 0; i < FAC_N; i++) if (fac_calls[i]) { vh_count(fac_tab[i].name, fac_calls[i]); fac_calls[i] = 0; }
	vh_nontrivial(); if (index % 17 == 3) vh_sample("nesting %d%%, strings to %lu: %s", fac_nest_percent, fac_big_len, tr);
}
#else
/* ---- sizes ---- */
static unsigned scale(unsigned n) { return (unsigned)(n * (vh_thorough ? (0.3 + vh_below(100) / 60.0) : 0.15 + vh_below(100) / 400.0)) + 1; }
static char *text(size_t n, int how) { char *b = malloc(n + 1); size_t i; for (i = 0; i < n; i++) b[i] = how == 0 ? 'a' : how == 1 ? (char)(1 + i % 255) : how == 2 ? "ab \"'\\ "[i % 7] : "x (\t)"[i % 5]; b[n] = 0; return b; }
static char **names(unsigned n) { char **v = malloc(n * sizeof *v), *b = malloc((size_t)n * 12); unsigned i; for (i = 0; i < n; i++) { v[i] = b + (size_t)i * 12; sprintf(v[i], "n%u", i); } return v; }
static void names_free(char **v) { free(v[0]); free(v); }
static unsigned seen; static int count1(const void *a) { (void)a; seen++; return 0; } static int count2(const void *a, const void *b) { (void)a; (void)b; seen++; return 0; } static int counts(const char *a) { (void)a; seen++; return 0; }
static int slcmp(const void *a, const void *b) { uintptr_t x = (uintptr_t)a, y = (uintptr_t)b; return x < y ? -1 : x > y; }
static unsigned long same(const void *p) { (void)p; return 5; }
static int pcmp(const void *a, const void *b) { return a != b; }
#define OK(c) VH_CHECK(c, "large-wrong", "%s with %u elements or bytes: " #c, what, n)
static const char *what; static unsigned n;
static void l_hash(void) { char **v = names(n = scale(600000)); hsh_HashTable t = hsh_create(NULL, NULL); unsigned i; for (i = 0; i < n; i++) OK(!hsh_insert(t, v[i], v[i])); seen = 0; hsh_iterate(t, count2); OK(seen == n); for (i = 0; i < n; i++) OK(hsh_retrieve(t, v[i]) == v[i]); hsh_print_stats(t, fac_out); fac_printed(); for (i = 0; i < n; i += 2) OK(!hsh_delete(t, v[i])); seen = 0; { hsh_Position p; void *k, *d; HSH_ITERATE(t, p, k, d) seen += k == d; } OK(seen == n / 2); hsh_destroy(t); names_free(v); }
static void l_chain(void) { unsigned i; hsh_HashTable t = hsh_create(same, pcmp); n = scale(12000); for (i = 1; i <= n; i++) hsh_insert(t, fac_num(i), fac_num(i)); OK(hsh_retrieve(t, fac_num(1)) == fac_num(1)); seen = 0; hsh_iterate(t, count2); OK(seen == n); for (i = 1; i <= n; i += 3) OK(!hsh_delete(t, fac_num(i))); hsh_destroy(t); }
static void l_set(void) { char **v = names(n = scale(400000)); set_Set a = set_create(NULL, NULL), b = set_create(NULL, NULL), c; unsigned i; for (i = 0; i < n; i++) { if (i % 2) set_insert(a, v[i]); if (i % 3) set_insert(b, v[i]); } c = set_union(a, b); OK((unsigned)set_count(c) >= n / 2 && !set_member(c, v[0])); set_destroy(c); c = set_inter(a, b); set_destroy(c); c = set_diff(a, b); OK(!set_equal(c, a) || n < 4); set_add(c, b); set_del(c, a); seen = 0; set_iterate(c, count1); OK(seen == (unsigned)set_count(c)); set_destroy(a); set_destroy(b); set_destroy(c); names_free(v); }
static void l_list(void) { lst_List l = lst_create(), m = lst_create(); unsigned i; n = scale(900000); for (i = 0; i < n; i++) { lst_append(l, fac_num(i)); if (i % 2) lst_push(m, fac_num(i)); } OK(lst_length(l) == n); seen = 0; lst_iterate(l, count1); OK(seen == n); OK(lst_nth_get(l, n) == fac_num(n - 1)); lst_truncate(l, n / 3); OK(lst_length(l) == n / 3); for (i = 0; i < n / 5; i++) lst_pop(m); lst_destroy(l); lst_destroy(m); }
static void l_stack(void) { stk_Stack s = stk_create(); unsigned i; n = scale(1500000); for (i = 0; i < n; i++) stk_push(s, fac_num(i + 1)); OK(stk_top(s) == fac_num(n)); for (i = n; i > n / 2; i--) OK(stk_pop(s) == fac_num(i)); stk_destroy(s); }
static void l_sl(void) { sl_List s = sl_create(slcmp, fac_id, NULL); unsigned i; n = scale(300000); n |= 1; for (i = 0; i < n; i++) { uintptr_t k = 1 + (uintptr_t)i * 2654435761UL % n; if (!sl_find(s, fac_num(k))) sl_insert(s, fac_num(k)); } seen = 0; sl_iterate(s, count1); OK(seen > n / 4); for (i = 1; i <= n; i += 2) if (sl_find(s, fac_num(i))) sl_delete(s, fac_num(i)); sl_destroy(s); }
static void l_pool(void) { char **v = names(n = scale(400000)); str_Pool p = str_pool_create(); unsigned i; const char *a; for (i = 0; i < n; i++) { a = str_pool_find(p, v[i]); OK(a != v[i] && !strcmp(a, v[i])); } seen = 0; str_pool_iterate(p, counts); OK(seen == n); str_pool_print_stats(p, fac_out); fac_printed(); str_pool_destroy(p); names_free(v); }
static void l_string(void) { int how = (int)vh_below(4); char *t; const char *a, *b; str_Pool p = str_pool_create(); n = scale(24000000); t = text(n, how); a = str_pool_find(p, t); OK(strlen(a) == n && !memcmp(a, t, n)); b = str_pool_copyn(p, t, (int)n); OK(!strcmp(a, b)); b = str_findn(t, (int)n - 1); OK(strlen(b) == n - 1); a = str_find(t); OK(strlen(a) == n); a = str_copyn(t, (int)n / 2); OK(strlen(a) == n / 2); a = str_unique(t + n - 100000 % n); OK(a); a = str_copy(t); OK(strlen(a) == n); OK(str_exists(t)); str_pool_destroy(p); str_destroy(); free(t); }
static void l_grow(void) { mem_String m = mem_create_strings(); str_Pool p = str_pool_create(); arg_List a = arg_create(); char *t = text(5000, 1); const char *s; unsigned i, piece = 1 + vh_below(5000), total = 0; n = scale(vh_thorough ? 8000000 : 3000000); if (n / piece > 20000) piece = n / 20000; if (piece > 5000) piece = 5000; for (i = 0; i + piece <= n; i += piece) { mem_grow(m, t, piece); total += piece; if (i < 300000) { str_pool_grow(p, t, piece); arg_grow(a, t, piece); str_grow(t, piece); } } s = mem_finish(m); OK(strlen(s) == total); OK(!memcmp(s, t, piece < total ? piece : total)); s = str_pool_finish(p); OK(s); arg_finish(a); OK(strlen(arg_get(a, 0)) == strlen(s)); s = str_finish(); OK(strlen(s) == strlen(arg_get(a, 0))); str_destroy(); mem_destroy_strings(m); str_pool_destroy(p); arg_destroy(a); free(t); }
static void l_mem(void) { char **v = names(n = scale(300000)); mem_String m = mem_create_strings(); mem_Object o = mem_create_objects(40); void **x = malloc(n * sizeof *x); unsigned i; for (i = 0; i < n; i++) { OK(!strcmp(mem_strcpy(m, v[i]), v[i])); x[i] = i % 2 ? mem_get_object(o) : mem_get_empty_object(o); memset(x[i], i, 40); } for (i = 0; i < n; i += 3) mem_free_object(o, x[i]); for (i = 0; i < n; i += 3) x[i] = mem_get_object(o); { mem_StringStats s = mem_get_string_stats(m); OK((unsigned)s->count == n); free(s); } { mem_ObjectStats s = mem_get_object_stats(o); OK((unsigned)s->used == n); free(s); } mem_destroy_strings(m); mem_destroy_objects(o); free(x); names_free(v); }
static void l_arg(void) { char **v = names(n = scale(500000)), **w; int c; arg_List a = arg_create(); unsigned i; for (i = 0; i < n; i++) arg_add(a, v[i]); arg_get_vector(a, &c, &w); OK((unsigned)c == n && !w[n] && !strcmp(w[n - 1], v[n - 1])); arg_destroy(a); names_free(v); }
static void l_argify(void) { char *t; arg_List a; int c; char **w; n = scale(6000000); t = text(n, (int)vh_below(3)); a = arg_argify(t, (int)vh_below(4)); arg_get_vector(a, &c, &w); OK(c >= 0 && !w[c]); arg_destroy(a); free(t); }
static void l_text(void) { char *t, r[8]; n = scale(8000000); t = text(n, (int)vh_below(4)); OK(strlen(txt_soundex(t)) == 4); txt_soundex2(t, r); OK(strlen(r) == 4); OK(hsh_string_hash(t) == hsh_string_hash(t)); OK(!hsh_string_compare(t, t)); free(t); }
static void l_src(void) { unsigned i; src_Type first = NULL, s; char *t; n = scale(200000); src_create(); src_new_file("big.c"); src_new_line(1); for (i = 0; i < n; i++) { char b[40]; int k = sprintf(b, "line %u here\n", i); src_line(b, k); s = src_get(4); if (!first) first = s; src_advance(4); } OK(src_linenumber(first) >= 1); t = text(2000000, 3); t[1999999] = '\n'; src_line(t, 2000000); s = src_get(10); src_advance(1999000); { src_Type z = src_get(100); src_parse_error(fac_out, z, "long"); fac_printed(); src_print_line(fac_out, z); fac_printed(); } t[1999999] = 0; src_new_file(t); src_print_message(fac_out, s, "%s", t); fac_printed(); src_print_error(fac_out, s, "%s", t); fac_printed(); src_parse_error(fac_out, first, t); fac_printed(); { char *c = malloc(2000100); int k = sprintf(c, "# 10 \"%s\"\n", t); src_cpp_line(c, k); free(c); } src_line("last\n", 5); s = src_get(2); OK(!strcmp(src_filename(s), t)); src_destroy(); free(t); }
static void l_prs(void) { char **v = names(n = scale(200000)); unsigned i; char *t = text(3000000, 0); for (i = 0; i < n; i++) prs_register_concrete(v[i], v[n - 1 - i]); for (i = 0; i < n; i += 7) OK(!strcmp(prs_concrete(v[i]), v[n - 1 - i])); prs_register_concrete("LONG", t); OK(!strcmp(prs_concrete("LONG"), t)); maa_init("p"); maa_shutdown(); free(t); names_free(v); }
static void l_log(void) { char *t, path[3000]; n = scale(4000000); t = text(n, (int)vh_below(3)); snprintf(path, sizeof path, "%s/big.%d", fac_dir, (int)getpid()); { FILE *f = fac_logstream(); log_stream("ident", f); } { char id[2000]; memset(id, 'i', 1999); id[1999] = 0; log_file(vh_chance(50) ? id : "i", path); } log_info("%s", t); log_error("routine", "%s\n", t); t[vh_below(9000)] = 0; log_error(t, "x%s", t); log_info("%s", t); { int save = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); t[vh_below(9000)] = 'z'; err_warning("routine", "%s", t); fflush(stderr); dup2(save, 2); close(save); close(nul); } log_close(); unlink(path); free(t); }
static void l_err(void) { char *t; int save = dup(2), nul = open("/dev/null", O_WRONLY); n = scale(3000000); t = text(n, 0); err_set_program_name(t); dup2(nul, 2); err_warning(t, "%s", t); fflush(stderr); dup2(save, 2); close(save); close(nul); err_set_program_name("p"); free(t); }
static void l_pr(void) { char *in, *out; int r; n = scale(6000000); in = text(n, 0); out = malloc(n + 10); r = pr_filter("cat", in, (int)n, out, (int)n + 10); OK((unsigned)r == n && !memcmp(in, out, n)); free(in); free(out); { char *c = text(120000, 0); memcpy(c, "true ", 5); r = pr_spawn(c); OK(r == 0); free(c); } }
static void l_tim(void) { char **v = names(n = scale(20000)); unsigned i; for (i = 0; i < n; i++) tim_start(v[i]); for (i = 0; i < n; i++) tim_stop(v[i]); tim_print_timers(fac_out); fac_printed(); for (i = 0; i < n; i++) OK(tim_get_real(v[i]) > -1); _tim_shutdown(); { char *t = text(500000, 0); tim_start(t); tim_stop(t); tim_print_timer(fac_out, t); tim_print_timers(fac_out); fac_printed(); _tim_shutdown(); free(t); } names_free(v); }
static void l_flags(void) { char *t; n = scale(2000000); t = text(n, 0); dbg_register(1UL << 3, t); dbg_set(t); OK(dbg_test(1UL << 3)); dbg_list(fac_out); fac_printed(); dbg_destroy(); flg_register(1UL << 3, t); flg_set(t); OK(flg_test(1UL << 3)); flg_list(fac_out); fac_printed(); flg_destroy(); free(t); }
static const struct { const char *name; void (*fn)(void); } lt[] = { { "hash table", l_hash }, { "one chain", l_chain }, { "sets", l_set }, { "lists", l_list }, { "stack", l_stack }, { "skip list", l_sl }, { "string pool", l_pool }, { "long strings", l_string }, { "growing", l_grow }, { "memories", l_mem }, { "argument list", l_arg }, { "long command", l_argify }, { "soundex", l_text }, { "source", l_src }, { "spellings", l_prs }, { "log", l_log }, { "warnings", l_err }, { "filter", l_pr }, { "timers", l_tim }, { "flags", l_flags } };
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; fac_setup(); }
void vh_case(uint64_t index)
{
	int k = (int)(index % (sizeof lt / sizeof *lt)); what = lt[k].name; n = 0; vh_op("large %s", what);
	lt[k].fn();
	vh_count("large cases", 1); vh_count(what, 1); vh_max("largest size", n); vh_digest(k); vh_digest(n); vh_nontrivial(); if (index % 13 == 1) vh_sample("%s: %u", what, n);
}
#endif
