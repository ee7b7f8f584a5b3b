/* C35: listings.  Standard output is a file in memory while the library prints. */
#define _GNU_SOURCE
#include "vh.h"
#include <ctype.h>
#include <sys/mman.h>
static int mem = -1, saved = -1;
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; mem = memfd_create("out", MFD_CLOEXEC); saved = fcntl(1, F_DUPFD_CLOEXEC, 100); if (mem < 0 || saved < 0) vh_inconclusive("no file in memory"); }
static void begin(void) { fflush(stdout); if (ftruncate(mem, 0) || lseek(mem, 0, SEEK_SET) < 0 || dup2(mem, 1) < 0) vh_inconclusive("redirection"); }
static char *end(size_t *n)
{
	off_t l; char *b; fflush(stdout); if (dup2(saved, 1) < 0) vh_inconclusive("redirection");
	l = lseek(mem, 0, SEEK_END); b = malloc((size_t)l + 1); if (pread(mem, b, (size_t)l, 0) != l) vh_inconclusive("reading back"); b[l] = 0; *n = (size_t)l;
	vh_count("listings", 1); vh_count("bytes listed", (uint64_t)l); return b;
}
static unsigned pick(void) { return vh_chance(1) ? 5000 + (unsigned)vh_below(vh_chance(10) ? 140000 : 20000) : vh_chance(10) ? 0 : vh_chance(10) ? 1 : vh_chance(6) ? 1000 + (unsigned)vh_below(4000) : 1 + (unsigned)vh_below(vh_chance(30) ? 300 : 30); }
/* ---- keys of a table ---- */
static int cmps(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static unsigned long h_same(const void *k) { (void)k; return 3; }
static unsigned long h_len(const void *k) { return strlen(k); }
static int walked; static int nothing(const void *k, const void *d) { (void)k; (void)d; walked++; return 0; }
static void keys_check(hsh_HashTable t, char **k, const char *in, unsigned total, unsigned n)
{
	size_t len, i, nw = 0; char *o, **w = malloc((n + 2) * sizeof *w), **e = malloc((n + 1) * sizeof *e); unsigned j, m = 0; size_t start, word = 0; unsigned lines = 0;
	begin(); hsh_key_strings(t); o = end(&len);
	VH_CHECK(len && o[len - 1] == '\n', "keys-unfinished", "the listing of %u keys does not end with a newline: \"%s\"", n, vh_quote(o, len));
	VH_CHECK(strlen(o) == len, "keys-nul", "the listing contains a NUL byte");
	/* no line but for its last key is 60 bytes long, and no line ends before that but the last */
	for (i = start = 0; i < len; i++) if (o[i] == '\n') {
		size_t last = 0, p = i; while (p > start && o[p - 1] == ' ') p--; while (p > start && o[p - 1] != ' ') p--; last = p - start;
		VH_CHECK(last < 60, "keys-line-long", "line %u of the listing has %zu bytes before its last key: \"%s\"", lines, last, vh_quote(o + start, i - start));
		VH_CHECK(i - start >= 60 || i + 1 == len, "keys-line-short", "line %u of the listing has %zu bytes only: \"%s\"", lines, i - start, vh_quote(o + start, i - start));
		start = i + 1; lines++;
	}
	for (i = 0; i <= len; i++) {
		int sp = i == len || o[i] == ' ' || o[i] == '\n';
		if (!sp) continue;
		if (i > word) { if (nw > n) break; w[nw++] = o + word; if (i < len) o[i] = 0; }
		word = i + 1;
	}
	for (j = 0; j < total; j++) if (in[j]) e[m++] = k[j];
	VH_CHECK(nw == n, "keys-number", "%s%zu keys are listed of a table with %u", nw > n ? "at least " : "", nw, n);
	qsort(w, nw, sizeof *w, cmps); qsort(e, m, sizeof *e, cmps);
	for (j = 0; j < n; j++) VH_CHECK(!strcmp(w[j], e[j]), "keys-wrong", "the listing shows \"%s\" where the table has \"%s\"", vh_quote(w[j], strlen(w[j])), vh_quote(e[j], strlen(e[j])));
	for (j = 0; j < total; j++) VH_CHECK(hsh_retrieve(t, k[j]) == (in[j] ? (const void *)(k + j) : NULL), "keys-changed", "after the listing key %u is %s", j, in[j] ? "gone or has another datum" : "there");
	walked = 0; hsh_iterate(t, nothing); VH_CHECK((unsigned)walked == n, "keys-changed", "after the listing the table has %d entries, before %u", walked, n);
	vh_count("keys listed", n); vh_max("lines of a listing", lines); vh_count("oracle checks", n + 3); free(o); free(w); free(e);
}
static void keys(void)
{
	unsigned n = pick(), i, m = 0, rounds = 1 + (unsigned)vh_below(5), sty = (unsigned)vh_below(5); char **k = malloc((n + 1) * sizeof *k), *in = calloc(n + 1, 1);
	hsh_HashTable t = vh_chance(60) ? hsh_create(NULL, NULL) : hsh_create(vh_chance(50) ? h_same : h_len, vh_chance(50) ? NULL : hsh_string_compare);
	if (n > 1500) n = 1500;
	for (i = 0; i < n; i++) {
		size_t l = sty == 0 ? 1 + vh_below(10) : sty == 1 ? 50 + vh_below(20) : sty == 2 ? 1 + vh_below(vh_chance(5) ? 20000 : 300) : sty == 3 ? 57 + vh_below(4) : 5, q; char *p; char b[16];
		sprintf(b, "%x", i); if (l < strlen(b) + 1) l = strlen(b) + 1;
		p = malloc(l + 1); for (q = 0; q < l; q++) p[q] = "ab%sdnZ{}\x80\xff_\\\"'"[vh_below(16)] & 0xff; for (q = 0; q < l; q++) if (!p[q]) p[q] = 'q';
		memcpy(p, b, strlen(b)); p[strlen(b)] = '.'; p[l] = 0; k[i] = p;
	}
	while (rounds--) {
		for (i = 0; i < n; i++) if (vh_chance(50)) {
			int r; if (in[i] && vh_chance(50)) { r = hsh_delete(t, k[i]); in[i] = 0; m--; VH_CHECK(!r, "delete-result", "deletion refused"); } else if (!in[i]) { r = hsh_insert(t, k[i], k + i); in[i] = 1; m++; VH_CHECK(!r, "insert-result", "insertion refused"); }
		}
		vh_op("keys of %u, style %u", m, sty); keys_check(t, k, in, n, m); vh_digest(m);
		if (vh_chance(40)) keys_check(t, k, in, n, m);
	}
	hsh_destroy(t); for (i = 0; i < n; i++) free(k[i]); free(k); free(in);
}
/* ---- a list's pointers ---- */
static void ptr_text(const void *p, char *b) { sprintf(b, "%p", p); if (!p) strcpy(b, "nil"); }
static int shows(const char *l, const char *w) { for (; (l = strstr(l, w)); l++) if (!strcmp(w, "nil") || !isxdigit((unsigned char)l[strlen(w)])) return 1; return 0; }
static void list(void)
{
	unsigned n = 0, i, rounds = 1 + (unsigned)vh_below(5); const void **a = malloc(6 * 146000 * sizeof *a); lst_List l = lst_create(), other = NULL;
	if (vh_chance(30)) { other = lst_create(); lst_append(other, a); }
	while (rounds--) {
		unsigned more = pick(); size_t len; char *o, *p, *q, w[40];
		for (i = 0; i < more; i++) {
			const void *v = vh_chance(5) ? NULL : vh_chance(30) ? (const void *)(uintptr_t)vh_u64() : vh_chance(30) ? (const void *)(uintptr_t)vh_below(40) : (const void *)(a + vh_below(5000));
			if (more > 6000 || n > 6000) { a[n++] = v; lst_append(l, v); }
			else if (n && vh_chance(10)) { n--; VH_CHECK(lst_pop(l) == a[0], "pop-wrong", "pop"); memmove(a, a + 1, n * sizeof *a); }
			else if (vh_chance(10)) { memmove(a + 1, a, n * sizeof *a); a[0] = v; n++; lst_push(l, v); } else { a[n++] = v; lst_append(l, v); }
		}
		begin(); lst_dump(l); o = end(&len); vh_op("dump of a list of %u", n);
		for (p = o, i = 0; *p; p = q + 1, i++) {
			q = strchr(p, '\n'); VH_CHECK(q, "dump-unfinished", "the dump does not end with a newline"); *q = 0;
			VH_CHECK(i < n, "dump-extra", "the dump of %u elements has another line \"%s\"", n, vh_quote(p, strlen(p)));
			ptr_text(a[i], w);
			VH_CHECK(shows(p, w), "dump-wrong", "line %u of the dump is \"%s\", element %s", i, vh_quote(p, strlen(p)), w);
		}
		VH_CHECK(i == n && (size_t)(p - o) == len, "dump-short", "the dump of %u elements has %u lines", n, i); free(o);
		VH_CHECK(lst_length(l) == n, "list-changed", "after the dump the list has %u elements, before %u", lst_length(l), n);
		for (i = 0; i < n; i += 1 + n / 50) VH_CHECK(lst_nth_get(l, i + 1) == a[i], "list-changed", "after the dump element %u is another", i);
		vh_digest(n); vh_count("elements listed", n); vh_max("longest list dumped", n); vh_count("oracle checks", n + 2);
	}
	lst_destroy(l); if (other) lst_destroy(other); free(a);
}
/* ---- a skip list's entries ---- */
static const void *key_same(const void *d) { return d; }
typedef struct { uintptr_t pad, key; } item;
static const void *key_in(const void *d) { return (const void *)((const item *)d)->key; }
static int cmp(const void *a, const void *b) { uintptr_t x = (uintptr_t)a, y = (uintptr_t)b; return x < y ? -1 : x > y; }
static void skip(void)
{
	unsigned n = pick(), i, m = 0, rounds = 1 + (unsigned)vh_below(4); item *it = calloc(n + 1, sizeof *it); char *in = calloc(n + 1, 1); int direct = vh_chance(40);
	sl_List s = sl_create(cmp, direct ? key_same : key_in, NULL);
	for (i = 0; i < n; i++) it[i].key = vh_chance(50) ? (uintptr_t)i * 3 + 1 : ((uintptr_t)1 << 40) + i;
	for (i = 1; i < n; i++) if (it[i].key <= it[i - 1].key) it[i].key = it[i - 1].key + 1 + vh_below(100);
	while (rounds--) {
		size_t len; char *o, *p, *q, w[40]; unsigned line;
		for (i = 0; i < n; i++) if (vh_chance(!m ? 85 : 50)) { const void *d = direct ? (const void *)it[i].key : (const void *)&it[i]; if (in[i]) { if (vh_chance(60)) { sl_delete(s, d); in[i] = 0; m--; } } else { sl_insert(s, d); in[i] = 1; m++; } }
		begin(); _sl_dump(s); o = end(&len); vh_op("dump of a skip list of %u", m);
		q = strchr(o, '\n'); VH_CHECK(q, "dump-unfinished", "the dump has no line"); *q = 0;
		p = strstr(o, "count = "); VH_CHECK(p && strtoul(p + 8, NULL, 10) == m, "dump-count", "the dump of %u entries begins \"%s\"", m, vh_quote(o, strlen(o)));
		for (line = 0, i = 0, p = q + 1; *p; p = q + 1, line++) {
			q = strchr(p, '\n'); VH_CHECK(q, "dump-unfinished", "the dump does not end with a newline"); *q = 0;
			if (!line) continue; /* the head */
			while (i < n && !in[i]) i++;
			VH_CHECK(i < n, "dump-extra", "the dump of %u entries has another line \"%s\"", m, vh_quote(p, strlen(p)));
			ptr_text(direct ? (const void *)it[i].key : (const void *)&it[i], w);
			{ char dec[40]; VH_CHECK(shows(p, w), "dump-wrong", "entry %u of the dump is \"%s\", should show %s", line, vh_quote(p, strlen(p)), w);
			  sprintf(dec, "=%lu", (unsigned long)it[i].key); VH_CHECK(strstr(p, dec) && !isdigit((unsigned char)strstr(p, dec)[strlen(dec)]), "dump-key", "entry %u of the dump is \"%s\", should show the key %s", line, vh_quote(p, strlen(p)), dec); }
			i++;
		}
		VH_CHECK(line == m + 1, "dump-short", "the dump of %u entries has %u lines of entries", m, line ? line - 1 : 0);
		for (i = 0; i < n; i++) VH_CHECK(!!sl_find(s, (const void *)it[i].key) == in[i], "list-changed", "after the dump entry %u is %s", i, in[i] ? "gone" : "there");
		free(o); vh_digest(m); vh_count("entries listed", m); vh_max("longest skip list dumped", m); vh_count("oracle checks", m + n + 3);
	}
	sl_destroy(s); free(it); free(in);
}
void vh_case(uint64_t idx)
{
	int k, n = 1 + (int)vh_below(6);
	for (k = 0; k < n; k++) switch (vh_below(3)) { case 0: keys(); break; case 1: list(); break; default: skip(); }
	_lst_shutdown(); _sl_shutdown();
	vh_nontrivial(); if (idx < 2) vh_sample("%d objects listed", n);
}
