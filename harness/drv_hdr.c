/* C32: symbols, header and versions; uses no macro of the header itself */
#include "vh.h"
#include <dlfcn.h>
static const char *E(const char *n) { const char *v = getenv(n); if (!v) { fprintf(stderr, "drv_so: %s not set\n", n); _exit(20); } return v; }
static int is_defined(char **v, int n, const char *s) { int a = 0, b = n; while (a < b) { int m = (a + b) / 2, c = strcmp(v[m], s); if (!c) return 1; if (c < 0) a = m + 1; else b = m; } return 0; }
static int by_name(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static char *slurp_cmd(const char *cmd) { FILE *f = popen(cmd, "r"); char *b = malloc(1 << 22); size_t n = fread(b, 1, (1 << 22) - 1, f); b[n] = 0; if (pclose(f)) { fprintf(stderr, "drv_so: %s failed\n", cmd); _exit(20); } return b; }
/* every name the header declares as a function and the library defines */
static void exports(void)
{
	char cmd[3000], *t, *d, *p, *q, *defd[4000]; int n = 0, seen = 0, lines = 0; void *h = dlopen(E("VH_SO"), RTLD_NOW | RTLD_GLOBAL);
	if (!h) vh_fail("library-unloadable", "the shared library cannot be loaded: %s", dlerror());
	snprintf(cmd, sizeof cmd, "nm -g --defined-only '%s' 2>/dev/null | awk 'NF==3 && $2==\"T\"{print $3}'", E("VH_LIBA")); d = slurp_cmd(cmd);
	for (p = strtok(d, "\n"); p && n < 4000; p = strtok(NULL, "\n")) defd[n++] = p;
	qsort(defd, n, sizeof *defd, by_name);
	if (n < 50) { fprintf(stderr, "drv_so: only %d functions defined\n", n); _exit(20); }
	/* declarations of the header itself only: line markers tell what comes from where */
	snprintf(cmd, sizeof cmd, "gcc -E '%s/maa.h'", E("VH_MAA")); t = slurp_cmd(cmd);
	{ int own = 0; char *ln = t, *nx; for (; ln; ln = nx) { nx = strchr(ln, '\n'); if (nx) *nx++ = 0; if (*ln == '#') { own = strstr(ln, "maa.h\"") != NULL; continue; } if (!own) continue; lines++;
		for (p = ln; *p; p++) if ((*p == '_' || (*p >= 'a' && *p <= 'z')) && (p == ln || !(p[-1] == '_' || (p[-1] >= '0' && p[-1] <= '9') || (p[-1] >= 'a' && p[-1] <= 'z') || (p[-1] >= 'A' && p[-1] <= 'Z')))) {
			char nm[200]; size_t k; for (q = p; *q == '_' || (*q >= '0' && *q <= '9') || (*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z'); q++) ; k = q - p; if (k >= sizeof nm) continue; memcpy(nm, p, k); nm[k] = 0; while (*q == ' ') q++;
			if (*q != '(' || !is_defined(defd, n, nm)) { p = q - 1; if (*q == 0) break; continue; }
			seen++; vh_count("declared functions looked up", 1);
			VH_CHECK(dlsym(h, nm), "not-exported", "%s is declared in the header and defined by the library, and the shared library does not export it", nm);
			p = q - 1;
		} } }
	if (seen < 150) { fprintf(stderr, "drv_so: only %d declarations recognised in %d lines\n", seen, lines); _exit(20); }
	free(t); free(d);
}
static void header(int mode)
{
	static const char *const cc[] = { "gcc -std=gnu89", "gcc -std=c99", "gcc -std=gnu11 -D_GNU_SOURCE", "gcc -std=c11 -pedantic", "clang -std=c99", "clang -std=gnu17", "gcc -std=gnu99 -DMAA_MAGIC=0" };
	static const char prog[] =
		"#include <maa.h>\nint main(void)\n{\nhsh_HashTable t; hsh_Position hp; void *k, *d; set_Set s; set_Position sp; void *e; lst_List l, m; lst_Position lp, mp; void *x, *y; str_Pool p; str_Position q; const char *z; int n = 0;\n"
		"t = hsh_create(0, 0); hsh_insert(t, \"a\", \"b\"); s = set_create(0, 0); set_insert(s, \"a\"); l = lst_create(); lst_append(l, \"a\"); m = lst_create(); lst_append(m, \"b\"); p = str_pool_create(); str_pool_find(p, \"a\");\n"
		"HSH_ITERATE(t, hp, k, d) if (k && d) ++n; HSH_ITERATE_KEYS(t, hp, k) if (k) { ++n; break; } HSH_ITERATE_END(t);\n"
		"SET_ITERATE(s, sp, e) { if (e) { ++n; break; } } SET_ITERATE_END(s);\nLST_ITERATE(l, lp, x) if (x) ++n; LST_ITERATE2(l, m, lp, mp, x, y) if (x && y) ++n;\n"
		"{ int i, c[7]; const void *o[12]; static const char w[12] = { 0 }; hsh_HashTable t2 = hsh_create(hsh_pointer_hash, hsh_pointer_compare); set_Set s2 = set_create(hsh_pointer_hash, hsh_pointer_compare); lst_List l2 = lst_create(), m2 = lst_create(); for (i = 0; i < 7; i++) c[i] = 0;\n"
		"for (i = 0; i < 12; i++) o[i] = i % 3 ? w + i : 0; for (i = 0; i < 12; i++) { lst_append(l2, (void *)o[i]); if (i < 10) lst_append(m2, (void *)o[i % 2 ? i : 11 - i]); if (i % 3 || !i) { hsh_insert(t2, o[i], i % 2 ? w + i : 0); set_insert(s2, o[i]); } }\n"
		"HSH_ITERATE(t2, hp, k, d) { if (d != hsh_retrieve(t2, k)) return 2; c[0]++; } HSH_ITERATE_KEYS(t2, hp, k) c[1]++; SET_ITERATE(s2, sp, e) { if (!set_member(s2, e)) return 3; c[2]++; }\n"
		"LST_ITERATE(l2, lp, x) { if (x != o[c[3]]) return 4; c[3]++; } LST_ITERATE2(l2, m2, lp, mp, x, y) { if (x != o[c[4]] || y != o[c[4] % 2 ? c[4] : 11 - c[4]]) return 5; c[4]++; } LST_ITERATE2(m2, l2, mp, lp, y, x) c[5]++;\n"
		"if (c[0] != 9 || c[1] != 9 || c[2] != 9 || c[3] != 12 || c[4] != 10 || c[5] != 10) return 6; hsh_insert(t2, w + 0, w); set_insert(s2, w + 0); hsh_destroy(t2); set_destroy(s2); lst_destroy(l2); lst_destroy(m2); }\n"
		"STR_ITERATE(p, q, z) { if (z) { ++n; break; } } STR_ITERATE_END(p);\nhsh_insert(t, \"c\", \"d\"); set_insert(s, \"c\"); str_pool_find(p, \"c\");\n"
		"PRINTF(MAA_PR, (\"%d\", n));\nhsh_destroy(t); set_destroy(s); lst_destroy(l); lst_destroy(m); str_pool_destroy(p);\nreturn n == 6 && maa_version_major() >= 0 ? 0 : 1;\n}\n";
	size_t i; char src[1000], exe[1000], cmd[6000]; FILE *f; vh_result r; const char *so = E("VH_SO"); char dir[1000];
	snprintf(dir, sizeof dir, "%s", so); *strrchr(dir, '/') = 0;
	snprintf(src, sizeof src, "%s/user.c", vh_scratch); snprintf(exe, sizeof exe, "%s/user", vh_scratch); f = fopen(src, "w"); fputs(prog, f); fclose(f); (void)r;
	for (i = mode; i == (size_t)mode && i < sizeof cc / sizeof *cc; i++) {
		char *log; int st; snprintf(cmd, sizeof cmd, "%s -w -I'%s' -o '%s' '%s' -L'%s' -Wl,-rpath,'%s' -lmaa > '%s.log' 2>&1", cc[i], E("VH_MAA"), exe, src, dir, dir, exe);
		vh_op("%s", cmd); st = system(cmd); { char lp[1100]; snprintf(lp, sizeof lp, "%s.log", exe); log = vh_read_file(lp, NULL); }
		VH_CHECK(st == 0, "user-program-does-not-build", "a program with the header and the shared library only does not build with \"%s\": %.1500s", cc[i], log ? log : ""); free(log);
		st = system(exe); VH_CHECK(st == 0, "user-program-fails", "the program built with \"%s\" ends with status 0x%x", cc[i], st);
		vh_count("programs built from header and shared library", 1);
	}
}
static void version(void)
{
	int a, b, c; const char *s = maa_version(), *p = s; 
	while (*p && !(*p >= '0' && *p <= '9')) p++;
	VH_CHECK(sscanf(p, "%d.%d.%d", &a, &b, &c) == 3, "version-string", "the version string is \"%s\"", s);
	VH_CHECK(a == maa_version_major() && b == maa_version_minor() && c == maa_version_teeny(), "version-disagrees", "the version string is \"%s\", the numbers are %d.%d.%d", s, maa_version_major(), maa_version_minor(), maa_version_teeny());
	VH_CHECK(a == atoi(E("VH_MAA_MAJOR")) && b == atoi(E("VH_MAA_MINOR")) && c == atoi(E("VH_MAA_TEENY")), "version-of-build", "the version is %s, the build is %s.%s.%s", s, E("VH_MAA_MAJOR"), E("VH_MAA_MINOR"), E("VH_MAA_TEENY"));
	VH_CHECK(strstr(s, "maa") || strstr(s, "Maa") || strstr(s, "MAA"), "version-string", "the version string \"%s\" does not name the library", s);
	vh_count("versions read", 1);
}

void vh_setup(int argc, char **argv) { (void)argc; (void)argv; unsetenv("LD_BIND_NOW"); exports(); }
void vh_case(uint64_t index) { if (index < 7) header((int)index); version(); vh_digest(index); vh_nontrivial(); if (index == 0) vh_sample("symbols, versions, user program of mode %d", (int)index); }
