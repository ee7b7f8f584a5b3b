/* C28: cycles of use and shutdown leave nothing behind and can repeat */
#include "acct.h"
static int fac_nesting;
#include "facil.h"
static void fac_enter(void) { if (!fac_nesting++) acct_tag = 1; }
static void fac_leave(void) { if (!--fac_nesting) acct_tag = 0; }
#include <dirent.h>
#include <time.h>
static char fd_before[20000];
static void fds(char *b, size_t room)
{
	int i; char p[40], t[300]; size_t n = 0; b[0] = 0;
	for (i = 3; i < 256; i++) { ssize_t k; sprintf(p, "/proc/self/fd/%d", i); k = readlink(p, t, sizeof t - 1); if (k < 0) continue; t[k] = 0; n += snprintf(b + n, room - n, "%d=%s ", i, t); if (n > room - 400) break; }
}
static void no_children(const char *when)
{
	int st; pid_t p = waitpid(-1, &st, WNOHANG); vh_count("child tables checked", 1);
	if (p < 0 && errno == ECHILD) return;
	vh_fail("child-left", "%s: %s", when, p == 0 ? "a child is still running" : "an ended child was never waited for");
}
void vh_setup(int argc, char **argv)
{
	FILE *f; time_t t = time(NULL); struct tm tm; (void)argc; (void)argv; tzset(); localtime_r(&t, &tm);
	fac_setup(); fac_keys();
	f = fopen(vh_path("warm"), "w"); fprintf(f, "%f %s", 1.5, "warm"); fclose(f); fprintf(stderr, " "); fflush(stderr); printf(" "); fflush(stdout);
	acct_init(); fds(fd_before, sizeof fd_before);
}
#define MAXW 40
/* every kind of object gives back its own storage */
static void own_storage(uint64_t seed)
{
	fac f = { seed, 0, 0 }; int i, n = 1 + fac_n(&f, 300), k; long before[20];
	hsh_HashTable h[2]; set_Set s[2]; stk_Stack st[2]; str_Pool p[2]; mem_String m[2]; mem_Object o[2]; arg_List a[2];
#define EACH(code) for (k = 0; k < 2; k++) { int w = k; (void)w; code; }
#define T(t, e) ACCT(t + k, e)
	EACH(T(10, h[w] = hsh_create(NULL, NULL)); T(12, s[w] = set_create(NULL, NULL)); T(14, st[w] = stk_create()); T(16, p[w] = str_pool_create()); T(18, m[w] = mem_create_strings()); T(20, o[w] = mem_create_objects(1 + n % 90)); T(22, a[w] = arg_create()))
	for (i = 0; i < n; i++) {
		int j = fac_n(&f, FAC_KEYS), len; const char *q = fac_piece(&f, &len); k = fac_n(&f, 2);
		switch (fac_n(&f, 14)) {
		case 0: T(10, hsh_insert(h[k], fac_key[j], fac_key[j])); break; case 1: T(10, hsh_delete(h[k], fac_key[j])); break;
		case 2: T(12, set_insert(s[k], fac_key[j])); break; case 3: T(12, set_delete(s[k], fac_key[j])); break; case 4: T(12 + k - k, set_add(s[k], s[1 - k])); break;
		case 5: T(14, stk_push(st[k], fac_key[j])); break; case 6: T(14, stk_pop(st[k])); break;
		case 7: T(16, str_pool_copyn(p[k], q, len)); break; case 8: T(16, (str_pool_grow(p[k], q, len), str_pool_finish(p[k]))); break;
		case 9: T(18, mem_strncpy(m[k], q, len)); break; case 10: T(18, mem_grow(m[k], q, len)); if (fac_n(&f, 4)) T(18, mem_finish(m[k])); break;
		case 11: { void *v; T(20, v = mem_get_object(o[k])); if (fac_n(&f, 3) == 0) T(20, mem_free_object(o[k], v)); } break;
		case 12: T(22, arg_add(a[k], fac_key[j])); break; default: T(22, arg_grow(a[k], q, len)); if (fac_n(&f, 4)) T(22, arg_finish(a[k])); }
	}
	for (i = 0; i < 14; i++) before[i] = acct_live[10 + i];
	for (k = 0; k < 2; k++) {
		static const char *nm[] = { "hash table", "set", "stack", "string pool", "string memory", "object memory", "argument list" };
		T(1, hsh_destroy(h[k])); T(1, set_destroy(s[k])); T(1, stk_destroy(st[k])); T(1, str_pool_destroy(p[k])); T(1, mem_destroy_strings(m[k])); T(1, mem_destroy_objects(o[k])); T(1, arg_destroy(a[k]));
		for (i = 0; i < 7; i++) {
			VH_CHECK(acct_live[10 + 2 * i + k] == 0, "storage-kept", "%ld of %ld blocks of a destroyed %s are still live after %d operations", acct_live[10 + 2 * i + k], before[2 * i + k], nm[i], n);
			if (k == 0) VH_CHECK(acct_live[11 + 2 * i] == before[2 * i + 1], "foreign-storage-released", "destroying one %s changed the blocks of another from %ld to %ld", nm[i], before[2 * i + 1], acct_live[11 + 2 * i]);
			vh_count("objects destroyed and accounted", 1);
		}
	}
#undef T
	/* lists and skip lists recycle: used up and destroyed again and again, nothing grows */
	{
		long after = 0; int r; 
		for (r = 0; r < 4; r++) {
			lst_List l; sl_List sl; fac_enter(); l = lst_create(); sl = sl_create(fac_cmp, fac_id, NULL);
			for (i = 0; i < n && i < FAC_KEYS; i++) { lst_append(l, fac_key[i]); sl_insert(sl, fac_key[i]); if (i % 3 == 2) lst_pop(l); if (i % 5 == 4) sl_delete(sl, fac_key[i]); }
			lst_destroy(l); sl_destroy(sl); fac_leave();
			if (r == 0) after = acct_live[1];
			else VH_CHECK(acct_live[1] <= after || r < 1, "storage-grows", "building and destroying the same list and skip list of %d elements again raised the live blocks from %ld to %ld", n, after, acct_live[1]);
			if (r && acct_live[1] < after) after = acct_live[1];
		}
		vh_count("lists rebuilt", 4);
	}
}
static const char *prog_names[] = { "prog", "/usr/bin/prog", "a-rather-long-program-name-for-a-test", "", "dir/" };
static void shutdown_checked(int inited, int cycle, const char *trace)
{
	char now[20000]; long live;
	if (!inited) { L(maa_init(prog_names[0])); }
	L(maa_shutdown()); fac_forgotten(); fflush(fac_out); fac_len = 0;
	live = acct_total;
	if (live) {
		unsigned i; char b[600]; int n = 0; size_t k = 0; b[0] = 0;
		for (i = 0; i < ACCT_SLOTS && n < 6; i++) if (acct_tab[i].p && acct_tab[i].tag) { k += snprintf(b + k, sizeof b - k, " %u", acct_tab[i].size); n++; }
		vh_fail("memory-left", "%ld blocks are live after shutdown of cycle %d, of sizes%s (%s)", live, cycle, b, trace);
	}
	vh_count("shut-downs accounted", 1);
	fds(now, sizeof now); if (strcmp(now, fd_before)) vh_fail("descriptor-left", "after shutdown of cycle %d: %.1000s (before: %.1000s)", cycle, now, fd_before);
	no_children("after shutdown");
}
void vh_case(uint64_t index)
{
	int nw = (int)vh_range(1, vh_chance(20) ? MAXW : 10), i, c, cycles = (int)vh_range(2, vh_chance(10) ? 12 : 4), w[MAXW], n[MAXW], per[MAXW], inited; uint64_t sd[MAXW], dig[MAXW]; char tr[1600]; size_t k = 0;
	for (i = 0; i < nw; i++) {
		do w[i] = (int)vh_below(FAC_N); while (w[i] == FAC_PR && vh_chance(85));
		sd[i] = vh_u64(); n[i] = (int)vh_range(0, vh_chance(15) ? 2500 : 120); per[i] = 0;
		if (k < 1500) k += snprintf(tr + k, sizeof tr - k, "%s/%d ", fac_tab[w[i]].name, n[i]);
		vh_digest(w[i] * 10000 + n[i]);
	}
	fac_ys = vh_u64(); vh_op("%s", tr);
	for (c = 0; c < cycles; c++) {
		int order = (int)vh_below(3); static const char *dbg[] = { ".memory", ".time", ".pr", ".sl", ".src", ".parse" };
		fac_nest_percent = c == 0 ? 0 : vh_chance(50) ? (int)vh_range(1, 40) : 0;
		inited = c == 0 ? vh_chance(70) : vh_chance(60);
		vh_op("cycle %d: %s, nesting %d%%, order %d", c, inited ? "initialised" : "not initialised", fac_nest_percent, order);
		int dbg_on = 0;
		if (inited) { L(maa_init(prog_names[vh_below(5)])); vh_count("cycles initialised", 1); { static const unsigned fl[] = { MAA_MEMORY, MAA_TIME, MAA_PR, MAA_SL, MAA_SRC, MAA_PARSE }; for (i = 0; i < 6; i++) { int on; L(on = dbg_test(fl[i])); VH_CHECK(!on, "debugging-left-on", "the library's debugging flag %s is on at the start of cycle %d", dbg[i], c); } } for (i = 0; i < 6; i++) if (vh_chance(12)) { if (i < 2 || i == 3 || i == 4) { vh_op("%s on", dbg[i]); L(dbg_set(dbg[i])); dbg_on = 1; vh_count("library's own debugging switched on", 1); } } } else vh_count("cycles not initialised", 1);
		for (i = 0; i < nw; i++) {
			int j = order == 0 ? i : order == 1 ? nw - 1 - i : (i + (int)(index % nw)) % nw; uint64_t d;
			if (i == 0 && vh_chance(50)) { /* no flag of any set is on, whatever the last cycle left */ int g, b; for (g = 0; g < 4; g++) for (b = 0; b < 30; b++) { unsigned long fl = (unsigned long)g << 30 | 1UL << b; int on; if (g == 2 || g == 3) { if (inited && dbg_on) continue; } L(on = dbg_test(fl)); VH_CHECK(!on, "flag-left-on", "debugging flag %lx is on at the start of cycle %d", fl, c); L(on = flg_test(fl)); VH_CHECK(!on, "flag-left-on", "flag %lx is on at the start of cycle %d", fl, c); } vh_count("flags examined at the start of a cycle", 240); }
			vh_op(" %s/%d", fac_tab[w[j]].name, n[j]);
			d = fac_run_at(w[j], sd[j], n[j], 0);
			if (c == 0) dig[j] = d;
			else { vh_count("workloads repeated", 1); VH_CHECK(d == dig[j], "different-results", "workload %s of size %d gave other results in cycle %d (%s, nesting %d%%) than in the first", fac_tab[w[j]].name, n[j], c, inited ? "initialised" : "not initialised", fac_nest_percent); }
		}
		if (vh_chance(40)) { vh_op(" own storage"); own_storage(vh_u64()); }
		/* things left for the shutdown to release */
		if (vh_chance(50)) { int q; L(str_find(fac_key[c]); q = (int)vh_below(3)); if (q) L(prs_register_concrete("NAME", "name")); if (vh_chance(40)) { L(flg_register(1UL << 29, "left"); flg_set("all")); fac_flags_known = 0; vh_count("all flags left on", 1); } if (vh_chance(40)) { L(dbg_register(1UL << 29, "left"); dbg_set_flag(1UL << 29)); fac_flags_known = 0; } vh_count("left to the shutdown", 1); }
		if (vh_chance(10)) { int fd = -1; L(pr_open("sleep 1000", PR_USE_STDIN | PR_CREATE_STDOUT, NULL, &fd, NULL)); if (fd >= 0) { vh_count("process left to the shutdown", 1); L(maa_init("p")); L(maa_shutdown()); fac_forgotten(); no_children("after shutdown with a process open"); close(fd); if (acct_total) vh_fail("memory-left", "%ld blocks live after shutdown with a process open", acct_total); inited = 0; } }
		shutdown_checked(inited, c, tr);
	}
	acct_reset();
	vh_count("cycles", cycles); for (i = 0; i < FAC_N; i++) if (fac_calls[i]) { vh_count("workload runs", fac_calls[i]); vh_count(fac_tab[i].name, fac_calls[i]); fac_calls[i] = 0; }
	vh_count("workloads nested", fac_nested); fac_nested = 0;
	vh_nontrivial(); if (nw > 8 && cycles > 3) vh_sample("%d cycles of: %s", cycles, tr);
}
