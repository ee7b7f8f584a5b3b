/* C32: the shared library and the installed header are enough */
#include "vh.h"
#include <syslog.h>
#include "facil.h"
static void fac_enter(void) { }
static void fac_leave(void) { }
/* ---- macros against callbacks ---- */
typedef struct { uint64_t sum; unsigned n; } sum;
static int k2(const void *k, const void *d, void *a) { sum *s = a; s->n++; s->sum += vh_hash_bytes(k, strlen(k)) * 7 + (uintptr_t)d; return 0; }
static int k1(const void *k, void *a) { sum *s = a; s->n++; s->sum += vh_hash_bytes(k, strlen(k)); return 0; }
static int k1s(const char *k, void *a) { return k1(k, a); }
static int ko(const void *k, void *a) { sum *s = a; s->n++; s->sum = vh_mix(s->sum, (uintptr_t)k); return 0; }
static sum want; 
#define SAME(got, name) VH_CHECK((got).n == want.n && (got).sum == want.sum, "macro-differs", "%s presented %u entries, the function %u%s", name, (got).n, want.n, (got).n == want.n ? ", and others" : "")
static void macros(void)
{
	unsigned n = vh_chance(15) ? 0 : (unsigned)vh_below(vh_chance(10) ? FAC_KEYS : 40), i, stop, j; struct { void *k, *d; hsh_Position p; const char *z; } st; void *arr[3]; sum g; hsh_HashTable t = hsh_create(NULL, NULL), other = hsh_create(NULL, NULL); set_Set s = set_create(NULL, NULL); lst_List l = lst_create(), m = lst_create(); str_Pool p = str_pool_create(); set_Position sp; lst_Position lp, mp; str_Position q; void *e, *f; const char *z; unsigned mlen = (unsigned)vh_below(n + 5);
	for (i = 0; i < n; i++) { j = (unsigned)vh_below(FAC_KEYS); hsh_insert(t, fac_key[j], fac_num(j + 1)); set_insert(s, fac_key[j]); lst_append(l, fac_key[j]); str_pool_find(p, fac_key[j]); }
	for (i = 0; i < mlen; i++) lst_append(m, fac_num(i + 1));
	/* complete loops, with plain variables, members and elements, in a branch without braces */
	memset(&want, 0, sizeof want); hsh_iterate_arg(t, k2, &want);
	memset(&g, 0, sizeof g); { hsh_Position hp; void *k, *d; HSH_ITERATE(t, hp, k, d) k2(k, d, &g); } SAME(g, "HSH_ITERATE");
	memset(&g, 0, sizeof g); if (n < 10000) HSH_ITERATE(n < 10000 ? t : other, st.p, st.k, arr[1]) k2(st.k, arr[1], &g); else g.n = 99; SAME(g, "HSH_ITERATE with members");
	memset(&want, 0, sizeof want); { hsh_Position hp; void *k; for (hp = hsh_init_position(t); hp; hp = hsh_next_position(t, hp)) { hsh_get_position(hp, &k); k1(k, &want); } }
	memset(&g, 0, sizeof g); HSH_ITERATE_KEYS(t, st.p, st.k) k1(st.k, &g); SAME(g, "HSH_ITERATE_KEYS");
	memset(&g, 0, sizeof g); { hsh_Position hp; for (HSH_POSITION_INIT(hp, t); HSH_POSITION_OK(hp); HSH_POSITION_NEXT(hp, t)) { void *k, *d; HSH_POSITION_GET(hp, k, d); VH_CHECK(hsh_retrieve(t, k) == d, "macro-differs", "HSH_POSITION_GET gives a foreign datum"); VH_CHECK(HSH_POSITION_GETKEY(hp, st.k) == d && st.k == k, "macro-differs", "HSH_POSITION_GETKEY"); k1(k, &g); } } SAME(g, "HSH_POSITION_*");
	memset(&want, 0, sizeof want); set_iterate_arg(s, k1, &want);
	memset(&g, 0, sizeof g); if (n < 10000) SET_ITERATE(s, sp, arr[2]) k1(arr[2], &g); else g.n = 99; SAME(g, "SET_ITERATE");
	memset(&g, 0, sizeof g); for (SET_POSITION_INIT(sp, s); SET_POSITION_OK(sp); SET_POSITION_NEXT(sp, s)) { SET_POSITION_GET(sp, e); k1(e, &g); } SAME(g, "SET_POSITION_*");
	memset(&want, 0, sizeof want); str_pool_iterate_arg(p, k1s, &want);
	memset(&g, 0, sizeof g); if (n < 10000) STR_ITERATE(p, q, z) k1(z, &g); else g.n = 99; SAME(g, "STR_ITERATE");
	memset(&g, 0, sizeof g); for (STR_POSITION_INIT(q, p); STR_POSITION_OK(q); STR_POSITION_NEXT(q, p)) k1((STR_POSITION_GET(q, st.z)), &g); SAME(g, "STR_POSITION_*");
	memset(&want, 0, sizeof want); lst_iterate_arg(l, ko, &want);
	memset(&g, 0, sizeof g); if (n < 10000) LST_ITERATE(l, lp, arr[0]) ko(arr[0], &g); else g.n = 99; SAME(g, "LST_ITERATE");
	memset(&g, 0, sizeof g); for (LST_POSITION_INIT(lp, l); LST_POSITION_OK(lp); LST_POSITION_NEXT(lp)) { LST_POSITION_GET(lp, e); ko(e, &g); } SAME(g, "LST_POSITION_*");
	memset(&want, 0, sizeof want); { unsigned a = lst_length(l), b = lst_length(m); for (i = 1; i <= (a < b ? a : b); i++) { ko(lst_nth_get(l, i), &want); want.sum = vh_mix(want.sum, (uintptr_t)lst_nth_get(m, i)); } }
	memset(&g, 0, sizeof g); if (n < 10000) LST_ITERATE2(l, m, lp, mp, e, f) { ko(e, &g); g.sum = vh_mix(g.sum, (uintptr_t)f); } else g.n = 99; SAME(g, "LST_ITERATE2");
	/* early ends: as many as wanted, and the container can be changed and walked again */
	stop = 1 + (unsigned)vh_below(n + 2);
	{ hsh_Position hp; void *k, *d; i = 0; HSH_ITERATE(t, hp, k, d) if (++i == stop) break; HSH_ITERATE_END(t); VH_CHECK(hsh_insert(t, "fresh", "x") == 0 && hsh_delete(t, "fresh") == 0, "end-macro", "the table cannot be changed after HSH_ITERATE_END"); i = 0; HSH_ITERATE_KEYS(t, hp, k) if (++i == stop) break; HSH_ITERATE_END(t); VH_CHECK(hsh_insert(t, "fresh", "x") == 0, "end-macro", "the table cannot be changed after HSH_ITERATE_END"); HSH_ITERATE_END(t); VH_CHECK(hsh_readonly(t, 0) == 0, "end-macro", "read-only after HSH_ITERATE_END"); }
	i = 0; SET_ITERATE(s, sp, e) if (++i == stop) break; SET_ITERATE_END(s); VH_CHECK(set_insert(s, "fresh") == 0 && set_readonly(s, 0) == 0, "end-macro", "the set cannot be changed after SET_ITERATE_END");
	i = 0; STR_ITERATE(p, q, z) if (++i == stop) break; STR_ITERATE_END(p); VH_CHECK(!strcmp(str_pool_find(p, "fresh"), "fresh"), "end-macro", "the pool cannot be changed after STR_ITERATE_END");
	hsh_destroy(t); hsh_destroy(other); set_destroy(s); lst_destroy(l); lst_destroy(m); str_pool_destroy(p);
	vh_count("macro loops compared", 16); vh_digest(n); vh_digest(stop); vh_digest(mlen); vh_digest(want.sum);
}
/* functions the workloads do not call */
static void va(int err, const char *fmt, ...) { va_list ap; va_start(ap, fmt); if (err) log_error_va("routine", fmt, ap); else log_info_va(fmt, ap); va_end(ap); }
static int cb_mark; static void callback(void) { cb_mark = 1; }
static void rest(void)
{
	set_Set s = set_create(hsh_pointer_hash, hsh_pointer_compare); lst_List l = lst_create(); char *t, buf[200]; FILE *f; int fd = -1, fe = -1, r; src_Type tk; sl_List sl; size_t len; char path[2000];
	VH_CHECK(set_get_hash(s) == hsh_pointer_hash && set_get_compare(s) == hsh_pointer_compare, "call-differs", "set_get_hash, set_get_compare"); set_destroy(s);
	lst_append(l, "a"); lst_append(l, "b"); lst_set_position(lst_last_position(l), "c"); VH_CHECK(!strcmp(lst_nth_get(l, 2), "c") && !strcmp(lst_get_position(lst_next_position(lst_nth_position(l, 1))), "c"), "call-differs", "list positions"); VH_CHECK(lst_total_allocated() > 0, "call-differs", "lst_total_allocated"); lst_dump(l); lst_destroy(l);
	sl = sl_create(fac_cmp, fac_id, fac_show); sl_insert(sl, "x"); _sl_dump(sl); VH_CHECK(sl_iterate(sl, fac_it1) == 0, "call-differs", "sl_iterate"); sl_destroy(sl);
	r = pr_open2("sh -c 'cat; echo err >&2; exit 7'", callback, PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_STDERR_TO_STDOUT, &fd, &fe, NULL); VH_CHECK(r > 0 && !cb_mark, "call-differs", "pr_open2"); r = pr_readwrite(fd, fe, "data", 4, buf, sizeof buf); VH_CHECK(r == 8 && !memcmp(buf, "dataerr\n", 8), "call-differs", "pr_readwrite gives %d bytes", r);
	r = pr_open("cat", PR_CREATE_STDIN | PR_USE_STDOUT, &fd, NULL, NULL); VH_CHECK(r > 0 && pr_close_nowait(fd) == r && pr_wait(r) == 0, "call-differs", "pr_close_nowait and pr_wait");
	log_syslog("ident"); log_set_facility("user"); VH_CHECK(log_get_facility() && !strcmp(log_get_facility(), "user"), "call-differs", "log_get_facility gives %s", log_get_facility()); log_syslog(NULL);
	snprintf(path, sizeof path, "%s/va.%d", vh_scratch, (int)getpid()); log_file("id", path); va(0, "info %d\n", 5); va(1, "error %d\n", 6); log_close(); t = vh_read_file(path, &len); VH_CHECK(t && strstr(t, "info 5") && strstr(t, "error 6"), "call-differs", "log_info_va, log_error_va: %s", t ? t : "no file"); free(t); unlink(path);
	src_create(); src_new_file("f"); src_new_line(4); src_line("int x;\n", 7); tk = src_get(3); t = NULL; f = open_memstream(&t, &len); src_print_line(f, tk); src_print_message(f, tk, "m"); src_print_error(f, tk, "e"); src_parse_error(f, tk, "p"); fclose(f); VH_CHECK(strstr(t, "int x;") && src_length(tk) == 3 && src_offset(tk) == 0 && src_linenumber(tk) >= 4 && !strcmp(src_filename(tk), "f"), "call-differs", "source: %s", t); free(t); src_destroy();
	tim_start("t"); tim_stop("t"); tim_reset("t"); VH_CHECK(tim_get_real("t") >= 0 && tim_get_user("t") >= 0 && tim_get_system("t") >= 0, "call-differs", "timers"); _tim_shutdown();
	prs_register_concrete("S", "s"); VH_CHECK(!strcmp(prs_concrete("S"), "s"), "call-differs", "prs_concrete"); _prs_shutdown(); str_destroy();
	{ str_Pool p = str_pool_create(); VH_CHECK(str_pool_readonly(p, 1) == 0 && str_pool_readonly(p, 0) == 1, "call-differs", "str_pool_readonly"); str_pool_destroy(p); }
	dbg_set_flag(1UL << 4); VH_CHECK(dbg_test(1UL << 4), "call-differs", "dbg_set_flag"); dbg_unset_flag(1UL << 4); VH_CHECK(!dbg_test(1UL << 4), "call-differs", "dbg_unset_flag");
	{ char *lt = NULL; size_t ll; FILE *o = open_memstream(&lt, &ll); log_stream("id", o); PRINTF(1UL << 4, ("no")); dbg_set_flag(1UL << 4); PRINTF(1UL << 4, ("yes %d\n", 5)); dbg_unset_flag(1UL << 4); log_close(); VH_CHECK(strstr(lt, "yes 5") && !strstr(lt, "no"), "macro-differs", "PRINTF logs \"%s\"", lt); free(lt); }
	vh_count("other functions called", 1);
}
static const char *fatal_want; static int fk;
static void fatal(void *a) { (void)a; err_set_program_name("p"); errno = ENOENT; if (fk == 0) err_fatal("rout", "m %d", 3); else if (fk == 1) err_fatal_errno("rout", "m %d", 3); else err_internal("rout", "m %d", 3); }
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; unsetenv("LD_BIND_NOW"); fac_setup(); fac_keys(); }
void vh_case(uint64_t index)
{
	int i; (void)fatal_want;
	if (index < 3) { vh_result r; fk = (int)index; vh_child(&r, fatal, NULL); VH_CHECK(fk == 2 ? WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT : WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1, "call-differs", "fatal error %d ends with status 0x%x", fk, r.status); VH_CHECK(strstr(r.err, "m 3") && strstr(r.err, "rout"), "call-differs", "fatal error %d reports %s", fk, r.err); vh_result_free(&r); }
	for (i = 0; i < 20; i++) macros();
	if (index % 4 == 0) rest();
	maa_init("so"); fac_ys = vh_u64(); for (i = 0; i < 4; i++) { int w = (int)vh_below(FAC_N); fac_run_at(w, vh_u64(), (int)vh_below(60), 0); vh_count("workloads against the shared library", 1); } maa_shutdown(); fac_forgotten();
	vh_nontrivial(); if (index == 5) vh_sample("macro loops and workloads of case 5");
}
