/* C30: misuse is stopped with a diagnosis before damage is done */
#include "vh.h"
#include <sys/mman.h>
#include <ctype.h>
#include <sys/resource.h>
enum kind { HSH, SET, LST, MST, MOB, ARG, SL, STK, POOL, NKIND };
static const char *kname[] = { "hash table", "set", "list", "string memory", "object memory", "argument list", "skip list", "stack", "string pool" };
static void *H[NKIND][2];           /* live handles */
#define NK 60
static char key[NK][24]; static char *obj_of[NK]; static int nobj; static const char *str_of[NK]; static int nstr; static int growing;
static volatile struct { int stage, returned, altered, checked; } *sh;
static uint64_t acc;
static int c1(const void *k) { acc += vh_hash_bytes(k, strlen(k)); return 0; }
static int c2(const void *k, const void *d) { acc += vh_hash_bytes(k, strlen(k)) * 3 + (uintptr_t)d; return 0; }
static int c1a(const void *k, void *a) { (void)a; return c1(k); }
static int c2a(const void *k, const void *d, void *a) { (void)a; return c2(k, d); }
static int cs(const char *k) { return c1(k); }
static int csa(const char *k, void *a) { (void)a; return c1(k); }
static int lst_it(const void *d) { acc = vh_mix(acc, vh_hash_bytes(d, strlen(d))); return 0; }
static int slcmp(const void *a, const void *b) { return strcmp(a, b); }
static const void *slkey(const void *d) { return d; }
static uint64_t content(int k, int i, int last)
{
	uint64_t d = 0; void *h = H[k][i]; acc = 1;
	switch (k) {
	case HSH: { hsh_Stats s; hsh_iterate(h, c2); s = hsh_get_stats(h); d = vh_mix(vh_mix(vh_mix(acc, s->size), s->resizings), s->entries); xfree(s); break; }
	case SET: { set_Stats s; set_iterate(h, c1); s = set_get_stats(h); d = vh_mix(vh_mix(vh_mix(vh_mix(acc, set_count(h)), s->size), s->resizings), s->entries); xfree(s); break; }
	case LST: lst_iterate(h, lst_it); d = vh_mix(acc, lst_length(h)); break;
	case MST: { mem_StringStats s = mem_get_string_stats(h); int j; d = vh_mix(s->count, s->bytes); if (i == 0) for (j = 0; j < nstr; j++) d = vh_mix(d, vh_hash_bytes(str_of[j], strlen(str_of[j]) + 1)); if (last && growing && i == 0) d += 0 * strlen(mem_finish(h)); free(s); break; }
	case MOB: { mem_ObjectStats s = mem_get_object_stats(h); int j; d = vh_mix(vh_mix(s->used, s->total), s->reused); if (i == 0) for (j = 0; j < nobj; j++) d = vh_mix(d, vh_hash_bytes(obj_of[j], 16)); free(s); break; }
	case ARG: { int n, j; char **v; arg_get_vector(h, &n, &v); d = n; for (j = 0; j < n; j++) d = vh_mix(d, vh_hash_bytes(v[j], strlen(v[j]))); d = vh_mix(d, v[n] != NULL); break; }
	case SL: sl_iterate(h, lst_it); d = acc; break;
	case STK: if (last) { void *p; while (!stk_isempty(h)) { p = stk_pop(h); d = vh_mix(d, vh_hash_bytes(p, strlen(p))); } } break;
	case POOL: str_pool_iterate(h, cs); d = acc; break;
	}
	return d;
}
static uint64_t before[NKIND][2]; static char stk_model[2][NK]; static int stk_n[2];
static void verify(void)
{
	int k, i; if (!sh->stage || sh->checked) return;
	sh->checked = 1;
	for (k = 0; k < NKIND; k++) for (i = 0; i < 2; i++) {
		uint64_t want = before[k][i];
		if (k == STK) { int j; want = 0; for (j = stk_n[i] - 1; j >= 0; j--) want = vh_mix(want, vh_hash_bytes(key[(int)stk_model[i][j]], strlen(key[(int)stk_model[i][j]]))); }
		if (content(k, i, 1) != want) sh->altered = 1 + k;
	}
	sh->checked = 2;
}
static void on_abrt(int s) { (void)s; verify(); }
static int edge[2][8], nedge[2];   /* numbers of entries with which the next insertion makes the table grow */
static void find_edges(void)
{
	hsh_HashTable t = hsh_create(NULL, NULL); set_Set u = set_create(NULL, NULL); int j; unsigned long a = 0, b = 0;
	for (j = 0; j <= NK - 2; j++) {
		hsh_Stats s; set_Stats v;
		hsh_insert(t, key[j], key[j]); s = hsh_get_stats(t); if (j && s->size != a && nedge[0] < 8) edge[0][nedge[0]++] = j; a = s->size; xfree(s);
		set_insert(u, key[j]); v = set_get_stats(u); if (j && v->size != b && nedge[1] < 8) edge[1][nedge[1]++] = j; b = v->size; xfree(v);
	}
	hsh_destroy(t); set_destroy(u);
}
static void build(void)
{
	int k, i, j, n;
	for (j = 0; j < NK; j++) sprintf(key[j], j == 7 ? "k" : "key number %d", j);
	if (!nedge[0] && !nedge[1]) find_edges();
	nobj = nstr = 0;
	for (i = 0; i < 2; i++) {
		H[HSH][i] = hsh_create(NULL, NULL); H[SET][i] = set_create(NULL, NULL); H[LST][i] = lst_create(); H[MST][i] = mem_create_strings(); H[MOB][i] = mem_create_objects(16); H[ARG][i] = arg_create(); H[SL][i] = sl_create(slcmp, slkey, NULL); H[STK][i] = stk_create(); H[POOL][i] = str_pool_create(); stk_n[i] = 0;
		for (k = 0; k < NKIND; k++) for (n = k <= SET && nedge[k] && vh_chance(50) ? vh_count("containers about to grow", 1), edge[k][vh_below((uint64_t)nedge[k])] : vh_chance(25) ? 0 : (int)vh_range(1, NK - 2), j = 0; j < n; j++) switch (k) {
		case HSH: hsh_insert(H[k][i], key[j], key[j]); break; case SET: set_insert(H[k][i], key[j]); break; case LST: lst_append(H[k][i], key[j]); break;
		case MST: { const char *s = mem_strcpy(H[k][i], key[j]); if (i == 0) str_of[nstr++] = s; break; }
		case MOB: { char *o = mem_get_object(H[k][i]); memset(o, j, 16); if (i == 0) obj_of[nobj++] = o; break; }
		case ARG: arg_add(H[k][i], key[j]); break; case SL: sl_insert(H[k][i], key[j]); break; case STK: stk_push(H[k][i], key[j]); stk_model[i][stk_n[i]++] = j; break; case POOL: str_pool_find(H[k][i], key[j]); break; }
	}
	growing = vh_chance(30); if (growing) mem_grow(H[MST][0], "half", 4);
	for (k = 0; k < NKIND; k++) for (i = 0; i < 2; i++) before[k][i] = content(k, i, 0);
}
static void destroy(void)
{
	int i; for (i = 0; i < 2; i++) { hsh_destroy(H[HSH][i]); set_destroy(H[SET][i]); lst_destroy(H[LST][i]); mem_destroy_strings(H[MST][i]); mem_destroy_objects(H[MOB][i]); arg_destroy(H[ARG][i]); sl_destroy(H[SL][i]); stk_destroy(H[STK][i]); str_pool_destroy(H[POOL][i]); }
}
/* ---- the operations ---- */
static int N, dummy_argc; static char **dummy_argv;
#define OPS \
 O(HSH, hsh_destroy, hsh_destroy(h), 0) O(HSH, hsh_insert, hsh_insert(h, key[N], key[1]), 0) O(HSH, hsh_delete, hsh_delete(h, key[N]), 0) O(HSH, hsh_retrieve, hsh_retrieve(h, key[N]), 0) \
 O(HSH, hsh_iterate, hsh_iterate(h, c2), "hsh_iterate_arg") O(HSH, hsh_iterate_arg, hsh_iterate_arg(h, c2a, NULL), 0) O(HSH, hsh_get_stats, hsh_get_stats(h), 0) O(HSH, hsh_print_stats, hsh_print_stats(h, stdout), "hsh_get_stats") \
 O(HSH, hsh_key_strings, hsh_key_strings(h), "hsh_iterate") O(HSH, hsh_init_position, hsh_init_position(h), 0) O(HSH, hsh_next_position, hsh_next_position(h, hsh_init_position(H[HSH][0])), 0) O(HSH, hsh_readonly, hsh_readonly(h, N & 1), 0) \
 O(SET, set_destroy, set_destroy(h), 0) O(SET, set_insert, set_insert(h, key[N]), 0) O(SET, set_delete, set_delete(h, key[N]), 0) O(SET, set_member, set_member(h, key[N]), 0) O(SET, set_iterate, set_iterate(h, c1), "set_iterate_arg") O(SET, set_iterate_arg, set_iterate_arg(h, c1a, NULL), 0) \
 O(SET, set_add, set_add(h, H[SET][0]), 0) O(SET, set_add, set_add(H[SET][0], h), 0) O(SET, set_del, set_del(h, H[SET][0]), 0) O(SET, set_del, set_del(H[SET][0], h), 0) \
 O(SET, set_union, set_union(h, H[SET][0]), 0) O(SET, set_union, set_union(H[SET][0], h), 0) O(SET, set_inter, set_inter(h, H[SET][0]), 0) O(SET, set_inter, set_inter(H[SET][0], h), 0) O(SET, set_diff, set_diff(h, H[SET][0]), 0) O(SET, set_diff, set_diff(H[SET][0], h), 0) \
 O(SET, set_equal, set_equal(h, H[SET][0]), 0) O(SET, set_equal, set_equal(H[SET][0], h), 0) O(SET, set_get_stats, set_get_stats(h), 0) O(SET, set_print_stats, set_print_stats(h, stdout), "set_get_stats") O(SET, set_count, set_count(h), 0) \
 O(SET, set_get_hash, set_get_hash(h), 0) O(SET, set_get_compare, set_get_compare(h), 0) O(SET, set_init_position, set_init_position(h), 0) O(SET, set_next_position, set_next_position(h, set_init_position(H[SET][0])), 0) O(SET, set_readonly, set_readonly(h, N & 1), 0) \
 O(LST, lst_destroy, lst_destroy(h), "lst_truncate") OT(LST, lst_append, lst_append(h, key[N]), 0) O(LST, lst_push, lst_push(h, key[N]), 0) O(LST, lst_pop, lst_pop(h), 0) O(LST, lst_top, lst_top(h), 0) O(LST, lst_nth_get, lst_nth_get(h, 1 + N), 0) O(LST, lst_nth_set, lst_nth_set(h, 1 + N, key[0]), 0) \
 O(LST, lst_member, lst_member(h, key[N]), 0) O(LST, lst_length, lst_length(h), 0) O(LST, lst_iterate, lst_iterate(h, c1), "lst_iterate_arg") O(LST, lst_iterate_arg, lst_iterate_arg(h, c1a, NULL), 0) O(LST, lst_truncate, lst_truncate(h, N), 0) O(LST, lst_truncate_position, lst_truncate_position(h, NULL), 0) O(LST, lst_truncate_position, lst_truncate_position(h, lst_init_position(H[LST][0])), 0) \
 O(LST, lst_init_position, lst_init_position(h), 0) O(LST, lst_last_position, lst_last_position(h), 0) O(LST, lst_nth_position, lst_nth_position(h, 1 + N), 0) O(LST, lst_dump, lst_dump(h), "lst_iterate") \
 O(MST, mem_destroy_strings, mem_destroy_strings(h), 0) O(MST, mem_strcpy, mem_strcpy(h, key[N]), "mem_strncpy") O(MST, mem_strncpy, mem_strncpy(h, key[N], 1), 0) O(MST, mem_grow, mem_grow(h, key[N], 1), 0) O(MST, mem_finish, mem_finish(h), 0) O(MST, mem_get_string_stats, mem_get_string_stats(h), 0) O(MST, mem_print_string_stats, mem_print_string_stats(h, stdout), "mem_get_string_stats") \
 O(MOB, mem_destroy_objects, mem_destroy_objects(h), 0) O(MOB, mem_get_object, mem_get_object(h), 0) O(MOB, mem_get_empty_object, mem_get_empty_object(h), "mem_get_object") O(MOB, mem_free_object, mem_free_object(h, key[N]), 0) O(MOB, mem_get_object_stats, mem_get_object_stats(h), 0) O(MOB, mem_print_object_stats, mem_print_object_stats(h, stdout), "mem_get_object_stats") \
 O(ARG, arg_destroy, arg_destroy(h), 0) O(ARG, arg_add, arg_add(h, key[N]), "arg_addn") O(ARG, arg_addn, arg_addn(h, key[N], 1), 0) O(ARG, arg_grow, arg_grow(h, key[N], 1), 0) O(ARG, arg_finish, arg_finish(h), 0) O(ARG, arg_get, arg_get(h, N), 0) O(ARG, arg_count, arg_count(h), 0) O(ARG, arg_get_vector, arg_get_vector(h, &dummy_argc, &dummy_argv), 0) \
 O(SL, sl_destroy, sl_destroy(h), 0) O(SL, sl_insert, sl_insert(h, key[N]), 0) O(SL, sl_delete, sl_delete(h, key[N]), 0) O(SL, sl_find, sl_find(h, key[N]), 0) OT(SL, sl_iterate, sl_iterate(h, c1), "sl_iterate_arg") OT(SL, sl_iterate_arg, sl_iterate_arg(h, c1a, NULL), 0) O(SL, _sl_dump, _sl_dump(h), 0)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define O(k, n, call, del) { k, #n, del, 0 },
#define OT(k, n, call, del) { k, #n, del, 1 },
static const struct { int kind; const char *name, *delegate; int tolerates; } op[] = { OPS };
#undef O
#undef OT
#define NOP ((int)(sizeof op / sizeof *op))
static void call_op(int which, void *h)
{
	int n = 0;
#define O(k, nm, call, del) if (n++ == which) { (void)(call); return; }
#define OT O
	OPS
#undef O
#undef OT
}
/* ---- read-only and index misuse ---- */
static int ro_how;
static void make_readonly(int kind) { if (kind == HSH) { if (ro_how == 0) hsh_readonly(H[HSH][0], 1); else { hsh_Position p = hsh_init_position(H[HSH][0]); while (ro_how-- > 1 && p) { hsh_Position q = hsh_next_position(H[HSH][0], p); if (!q) break; p = q; } hsh_readonly(H[HSH][0], 1); } } else { if (ro_how == 0) set_readonly(H[SET][0], 1); else { set_init_position(H[SET][0]); set_readonly(H[SET][0], 1); } } }
static const struct { const char *what, *name, *delegate; int kind; } mis[] = {
	{ "insert into a read-only table", "hsh_insert", NULL, HSH }, { "delete from a read-only table", "hsh_delete", NULL, HSH }, { "destroy a read-only table", "hsh_destroy", NULL, HSH },
	{ "insert into a read-only set", "set_insert", NULL, SET }, { "delete from a read-only set", "set_delete", NULL, SET }, { "destroy a read-only set", "set_destroy", NULL, SET }, { "add to a read-only set", "set_add", "set_insert", SET }, { "remove from a read-only set", "set_del", "set_delete", SET },
	{ "argument index too large", "arg_get", NULL, ARG }, { "negative argument index", "arg_get", NULL, ARG }, { "replace element 0", "lst_nth_set", NULL, LST }, { "replace an element behind the last", "lst_nth_set", NULL, LST },
	{ "insert into a table during a position walk", "hsh_insert", NULL, HSH }, { "delete from a table during a position walk", "hsh_delete", NULL, HSH }, { "destroy a table during a position walk", "hsh_destroy", NULL, HSH },
	{ "insert into a set during a position walk", "set_insert", NULL, SET }, { "delete from a set during a position walk", "set_delete", NULL, SET }, { "destroy a set during a position walk", "set_destroy", NULL, SET } };
#define NMIS ((int)(sizeof mis / sizeof *mis))
static long idx; static char nokey[] = "no such key";
static void call_mis(int m)
{
	const char *k = idx & 1 ? key[N] : nokey;
	if (mis[m].kind == HSH && m < 12) make_readonly(HSH);
	if (mis[m].kind == SET && m < 12) make_readonly(SET);
	if (m >= 12 && m <= 14) hsh_init_position(H[HSH][0]);
	if (m >= 15) set_init_position(H[SET][0]);
	sh->stage = 2;
	switch (m) {
	case 0: case 12: hsh_insert(H[HSH][0], k, k); break; case 1: case 13: hsh_delete(H[HSH][0], k); break; case 2: case 14: hsh_destroy(H[HSH][0]); break;
	case 3: case 15: set_insert(H[SET][0], k); break; case 4: case 16: set_delete(H[SET][0], k); break; case 5: case 17: set_destroy(H[SET][0]); break; case 6: set_add(H[SET][0], H[SET][1]); break; case 7: set_del(H[SET][0], H[SET][1]); break;
	case 8: case 9: arg_get(H[ARG][0], (int)idx); break; case 10: lst_nth_set(H[LST][0], 0, key[0]); break; case 11: lst_nth_set(H[LST][0], (unsigned)idx, key[0]); break; }
}
/* ---- misuse that involves no handle ---- */
static const struct { const char *what, *name, *delegate; } oth[] = {
	{ "close a descriptor that belongs to no started process", "pr_close_nowait", "pr_close" }, { "close without waiting a descriptor that belongs to no started process", "pr_close_nowait", NULL }, { "close the descriptor of a started process twice", "pr_close_nowait", "pr_close" },
	{ "open a log file while one is open", "log_file", NULL }, { "open a log stream while one is open", "log_stream", NULL }, { "open the system log while it is open", "log_syslog", NULL }, { "set an unknown log facility", "log_set_facility", NULL },
	{ "insert the key NULL into a table of strings", "hsh_string_hash", "hsh_insert" }, { "look up the key NULL in a table of strings", "hsh_string_hash", "hsh_retrieve" }, { "insert NULL into a set of strings", "hsh_string_hash", "set_insert" }, { "hash the string NULL", "hsh_string_hash", NULL }, { "compare the string NULL with another", "hsh_string_compare", NULL }, { "compare a string with NULL", "hsh_string_compare", NULL },
	{ "destroy a string pool NULL", "str_pool_destroy", NULL }, { "create a second source manager", "src_create", NULL }, { "create a skip list without a comparison", "sl_create", NULL }, { "release NULL", "xfree", NULL },
	{ "insert a datum that is in the skip list", "sl_insert", NULL }, { "delete a datum that is not in the skip list", "sl_delete", NULL }, { "register a timer operation without timer", "tim_stop", NULL } };
#define NOTH ((int)(sizeof oth / sizeof *oth))
static long arg_of(int o)
{
	static const int fds[] = { -1, 3, 40, 900, 1023, 1024, 5000, 1 << 20, INT_MAX, INT_MIN, 0, 2 };
	return o < 3 ? fds[vh_below(12)] : (long)vh_below(4);
}
static void call_oth(int o)
{
	int a, b; char f1[600], f2[600]; FILE *s1, *s2; struct rlimit rl;
	snprintf(f1, sizeof f1, "%s", vh_path("one.log")); snprintf(f2, sizeof f2, "%s", vh_path("two.log"));
	switch (o) {
	case 0: case 1: case 2:
		if (idx & 2) { getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &rl); }
		if (idx & 1 || o == 2) pr_open("true", PR_CREATE_STDOUT, NULL, &a, NULL);
		if (idx & 1 && o < 2) pr_open("true", PR_CREATE_STDIN, &b, NULL, NULL);
		if ((idx & 5) == 5 && o < 2) pr_close(a);
		if (o == 2) pr_close(a); else if (!(idx & 1) || (idx != a && idx != b)) a = (int)idx;
		if (o < 2 && (idx & 1) && (a == b || fcntl(a, F_GETFD) >= 0) && a > 2) a = 63;
		sh->stage = 2; if (o == 1) pr_close_nowait(a); else pr_close(a);
		break;
	case 3: log_file("x", f1); sh->stage = 2; log_file(idx & 2 ? "x" : "y", idx & 1 ? f1 : f2); break;
	case 4: s1 = fopen(f1, "w"); s2 = fopen(f2, "w"); log_stream("x", s1); sh->stage = 2; log_stream(idx & 2 ? "x" : "y", idx == 0 ? stderr : idx == 1 ? s2 : s1); break;
	case 5: log_syslog("x"); sh->stage = 2; log_syslog(idx & 1 ? "x" : "y"); break;
	case 6: sh->stage = 2; log_set_facility(((const char *[]) { "", "nothing", "daemo", "users" })[idx]); break;
	case 7: hsh_insert(H[HSH][1], NULL, key[0]); break;
	case 8: hsh_retrieve(H[HSH][1], NULL); break;
	case 9: set_insert(H[SET][1], NULL); break;
	case 10: hsh_string_hash(NULL); break;
	case 11: hsh_string_compare(NULL, idx & 1 ? key[0] : NULL); break;
	case 12: hsh_string_compare(key[0], NULL); break;
	case 13: str_pool_destroy(NULL); break;
	case 14: src_create(); if (idx & 1) src_line("text\n", 5); src_create(); break;
	case 15: sl_create(NULL, idx & 1 ? slkey : NULL, NULL); break;
	case 16: xfree(NULL); break;
	case 17: sl_insert(H[SL][0], "here"); before[SL][0] = content(SL, 0, 0); sh->stage = 2; sl_insert(H[SL][0], "here"); break;
	case 18: sl_delete(H[SL][0], idx & 1 ? nokey : ((const char *[]) { "", "a", "zz", "key number" })[idx]); break;
	case 19: if (idx & 1) { tim_start("other"); tim_stop("other"); } sh->stage = 2; tim_stop("never started"); break;
	}
}
static int cur_op, cur_mis; static void *cur_h; static int with_init, with_name;
static void child(void *a)
{
	(void)a;
	if (with_name) err_set_program_name("some-program");
	signal(SIGABRT, on_abrt); atexit(verify);
	sh->stage = 1;
	if (cur_op >= 0) call_op(cur_op, cur_h); else if (cur_mis < NMIS) call_mis(cur_mis); else call_oth(cur_mis - NMIS);
	sh->returned = 1; verify(); _exit(0);
}
static int word(const char *t, const char *w)
{
	size_t n = strlen(w); const char *p = t;
	while ((p = strstr(p, w))) { if ((p == t || !(isalnum((unsigned char)p[-1]) || p[-1] == '_')) && !(isalnum((unsigned char)p[n]) || p[n] == '_')) return 1; p++; }
	return 0;
}
static void judge(const char *what, const char *name, const char *delegate, int tolerated)
{
	vh_result r;
	sh->stage = sh->returned = sh->altered = sh->checked = 0;
	vh_op("%s", what);
	vh_child(&r, child, NULL);
	if (vh_is_sanitizer(&r)) { dprintf(2, "%s", r.err); vh_fail("memory-fault", "%s: %.1500s", what, r.err); }
	if (tolerated) {
		VH_CHECK(sh->returned && !r.status && r.errlen == 0, "not-tolerated", "%s has to be tolerated: status 0x%x, \"%.300s\"", what, r.status, r.err);
		VH_CHECK(sh->checked == 2 && !sh->altered, "altered", "%s altered a %s", what, sh->altered ? kname[sh->altered - 1] : "?");
		vh_count("null handles tolerated", 1); vh_result_free(&r); return;
	}
	VH_CHECK(!sh->returned, "returned", "%s returned normally", what);
	VH_CHECK(!r.timed_out, "hang", "%s did not end", what);
	VH_CHECK((WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT) || (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1), "bad-end", "%s ended with status 0x%x: %.500s", what, r.status, r.err);
	VH_CHECK(word(r.err, name) || (delegate && word(r.err, delegate)), "routine-not-named", "%s: the diagnosis does not name %s: \"%.500s\"", what, name, r.err);
	VH_CHECK(!strstr(r.err, "Assertion"), "assertion", "%s: an assertion instead of a diagnosis: %.300s", what, r.err);
	VH_CHECK(sh->checked == 2, "objects-unusable", "%s: the objects could not be examined afterwards (stage %d)", what, sh->checked);
	VH_CHECK(!sh->altered, "altered", "%s: a %s was altered before the diagnosis", what, kname[sh->altered - 1]);
	vh_count(WIFSIGNALED(r.status) ? "ended by abort" : "ended with status 1", 1);
	vh_result_free(&r);
}
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); vh_child_wall = 20; }
void vh_case(uint64_t index)
{
	int w = (int)(index % (NOP + NMIS + NOTH)), k; char what[300];
	build(); with_name = vh_chance(50); N = vh_chance(20) ? NK - 1 : (int)vh_below(NK); vh_digest(w); vh_digest(N); vh_digest(before[w < NOP ? op[w].kind : w < NOP + NMIS ? mis[w - NOP].kind : SL][0]);
	if (w < NOP) {
		cur_op = w;
		cur_h = NULL; sprintf(what, "%s with a null handle", op[w].name); judge(what, op[w].name, op[w].delegate, op[w].tolerates); vh_count("null handles", 1);
		for (k = 0; k < NKIND; k++) if (k != op[w].kind) { cur_h = H[k][vh_below(2)]; sprintf(what, "%s with a live %s", op[w].name, kname[k]); judge(what, op[w].name, op[w].delegate, 0); vh_count("handles of another kind", 1); }
	} else if (w >= NOP + NMIS) {
		int i, o = w - NOP - NMIS; cur_op = -1; cur_mis = w - NOP;
		for (i = 0; i < 6; i++) { idx = arg_of(o); snprintf(what, sizeof what, "%s (%ld)", oth[o].what, idx); judge(what, oth[o].name, oth[o].delegate, 0); vh_count("misuse without a handle", 1); }
	} else {
		int m = w - NOP, i, n; cur_op = -1; cur_mis = m; ro_how = vh_chance(50) ? 0 : 1 + (int)vh_below(4);
		if (m == 6 || m == 7) { /* something has to be added or removed */ set_insert(H[SET][1], "extra"); before[SET][1] = content(SET, 1, 0); if (m == 7) { set_insert(H[SET][0], "extra"); before[SET][0] = content(SET, 0, 0); } }
		if (m >= 12) { if (m <= 14) { hsh_insert(H[HSH][0], "one", "one"); before[HSH][0] = content(HSH, 0, 0); } else { set_insert(H[SET][0], "one"); before[SET][0] = content(SET, 0, 0); } ro_how = 0; }
		n = m == 8 || m == 9 ? arg_count(H[ARG][0]) : (int)lst_length(H[LST][0]);
		for (i = 0; i < 8; i++) {
			static const long far[] = { 0, 1, 2, 5, 100, 65536, INT_MAX }; long z = far[i % 7];
			idx = i;
			if (m == 8) { idx = n + z; if (idx > INT_MAX) idx = INT_MAX; } else if (m == 9) idx = z == INT_MAX ? (long)INT_MIN : -1 - z; else if (m == 11) { idx = n + 1 + z; if (i == 7) idx = UINT_MAX; }
			snprintf(what, sizeof what, "%s (%ld of %d)", mis[m].what, idx, n); judge(what, mis[m].name, mis[m].delegate, 0); vh_count(m < 8 || m >= 12 ? "read-only misuse" : "indexes out of range", 1);
		}
	}
	destroy(); vh_nontrivial(); if (index % 37 == 0) vh_sample("last: %s", what);
}
