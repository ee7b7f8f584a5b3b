/* C13: splitting strings into arguments.  The reference below is written from the documentation:
   it keeps the text of the argument being read, if any. */
#include "vh.h"
typedef struct { char *b; unsigned n; } tok;
static tok *T; static unsigned nT, capT; static char *cur; static unsigned ncur, capcur; static int pending;
static void put(char c) { if (ncur == capcur) { capcur = capcur * 2 + 64; cur = realloc(cur, capcur); } cur[ncur++] = c; }
static void finish(void) { if (!pending) return; if (nT == capT) { capT = capT * 2 + 64; T = realloc(T, capT * sizeof *T); } T[nT].b = malloc(ncur + 1); memcpy(T[nT].b, cur, ncur); T[nT].b[ncur] = 0; T[nT++].n = ncur; ncur = 0; pending = 0; }
static int separator(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\n'; }
static void reference(const char *s, int mode)
{
	int quotes = !(mode & ARG_NO_QUOTE), escapes = !(mode & ARG_NO_ESCAPE);
	nT = 0; ncur = 0; pending = 0;
	while (*s) {
		char c = *s++;
		if (separator(c)) { finish(); continue; }
		pending = 1;
		if (quotes && (c == '"' || c == '\'')) { while (*s && *s != c) put(*s++); if (*s) s++; }
		else if (escapes && c == '\\') { if (*s) put(*s++); }
		else put(c);
	}
	finish();
}
static void drop(void) { while (nT) free(T[--nT].b); }
static void one(const char *s, unsigned n, int mode)
{
	char *b = vh_arg(s, n + 1); arg_List a; int ac = -1; char **av = NULL; unsigned i;
	reference(s, mode);
	a = arg_argify(b, mode);
	if (memcmp(b, s, n + 1)) vh_fail("input-changed", "the input was modified");
	memset(b, 0x5a, n + 1); vh_unarg(b);
	arg_get_vector(a, &ac, &av);
	if (ac != (int)nT || arg_count(a) != (int)nT) vh_fail("token-count", "mode %d \"%s\": %d arguments (first \"%s\"), should be %u (first \"%s\")", mode, vh_quote(s, n), ac, ac > 0 ? vh_quote(av[0], strlen(av[0])) : "-", nT, nT ? vh_quote(T[0].b, T[0].n) : "-");
	for (i = 0; i < nT; i++) {
		const char *g = arg_get(a, (int)i);
		if (g != av[i] && strcmp(g, av[i])) vh_fail("vector-differs", "mode %d \"%s\": item and vector entry %u differ", mode, vh_quote(s, n), i);
		if (strlen(g) != T[i].n || memcmp(g, T[i].b, T[i].n)) vh_fail("token-wrong", "mode %d \"%s\": argument %u is \"%s\", should be \"%s\"", mode, vh_quote(s, n), i, vh_quote(g, strlen(g)), vh_quote(T[i].b, T[i].n));
		if (!T[i].n) vh_count("empty arguments", 1);
	}
	if (av[ac]) vh_fail("vector-end", "mode %d \"%s\": the vector is not terminated", mode, vh_quote(s, n));
	vh_count("oracle checks", 3 + nT); vh_count("strings split", 1); vh_count("arguments compared", nT);
	arg_destroy(a); drop();
}
/* every string over the classes up to LEN; a case is one block of them */
static const char CLS[] = { 'a', ' ', '"', '\'', '\\' };
#define NC 5
static unsigned maxlen; static uint64_t total;
#define BLOCK 500
void vh_setup(int argc, char **argv)
{
	unsigned l; uint64_t p = 1; (void)argc; (void)argv;
	maxlen = vh_thorough ? 9 : 7;
	for (l = 0; l <= maxlen; l++) { total += p; p *= NC; }
}
static void exhaustive(uint64_t blk)
{
	uint64_t k, at; static const char sp[] = " \t\r\v\n"; static const char ot[] = "ab\f\x01\x80\xff%$";
	for (at = blk * BLOCK; at < (blk + 1) * BLOCK && at < total; at++) {
		char s[16]; unsigned l = 0, i; uint64_t p = 1; int mode;
		for (k = at; k >= p; k -= p, p *= NC) l++;
		for (i = 0; i < l; i++, k /= NC) { char c = CLS[k % NC]; s[i] = c == ' ' ? sp[vh_below(5)] : c == 'a' ? ot[vh_below(8)] : c; }
		s[l] = 0;
		for (mode = 0; mode < 4; mode++) one(s, l, mode);
		vh_count("enumerated strings", 1);
	}
	vh_max("length enumerated completely", maxlen);
}
void vh_case(uint64_t idx)
{
	uint64_t blocks = (total + BLOCK - 1) / BLOCK;
	vh_digest(idx);
	if (idx < blocks) { vh_op("block %llu of the enumeration", (unsigned long long)idx); exhaustive(idx); vh_nontrivial(); if (idx < 1) vh_sample("every string of length up to %u over {other, separator, \", ', \\} in all four modes, %llu strings", maxlen, (unsigned long long)total); return; }
	if (idx % 3 == 0) {
		/* runs: long stretches of one class between short mixtures */
		unsigned n = 0, cap = 1 << 22, segs = 1 + (unsigned)vh_below(12), i, r, total = 0; int mode; static char *s; if (!s) s = malloc(cap + 1);
		static const char sp[] = " \t\n\r\v";
		for (i = 0; i < segs; i++) {
			int cls = (int)vh_below(8), p2 = 1 + (int)vh_below(vh_thorough ? 20 : 17); unsigned len = vh_chance(40) ? (unsigned)vh_below(5) : vh_chance(50) ? (1u << p2) - 2 + (unsigned)vh_below(5) : (unsigned)vh_below(1u << p2);
			char q;
			if (n + len + 64 > cap || total > (vh_thorough ? 3000000u : 120000u)) break;
			total += len;
			for (r = 0; r < len; r++) switch (cls) {
			case 0: case 1: s[n++] = 'a' + (char)(r % 23); break;
			case 2: s[n++] = sp[vh_below(5)]; break;
			case 3: s[n++] = (char)(128 + vh_below(128)); break;
			case 4: s[n++] = '\\'; break;
			case 5: s[n++] = r & 1 ? 'x' : '\\'; break;
			case 6: s[n++] = r & 1 ? ' ' : 'y'; break;
			case 7: q = i & 1 ? '"' : '\''; s[n++] = r == 0 ? q : r == len - 1 && vh_chance(80) ? q : r % 5 ? 'z' : i & 1 ? '\'' : '"'; break;
			}
			for (r = (unsigned)vh_below(5); r > 0; r--) s[n++] = CLS[vh_below(NC)];
			vh_max("longest run", len);
		}
		s[n] = 0; vh_op("runs, %u bytes: \"%s\"", n, vh_quote(s, n));
		for (mode = 0; mode < 4; mode++) one(s, n, mode);
		vh_digest(vh_hash_bytes(s, n)); vh_max("longest string", n); vh_count("strings of runs", 1); vh_nontrivial(); return;
	}
	{
		unsigned n, i; int mode = (int)vh_below(4), style = (int)vh_below(4); char *s;
		n = vh_chance(5) ? 2000 + (unsigned)vh_below(vh_thorough ? 2000000 : 60000) : (unsigned)vh_below(style == 3 ? 12 : 400);
		s = malloc(n + 1);
		for (i = 0; i < n; i++) { static const char w[] = "abcdef  \t\n\r\v\"'\\"; s[i] = style == 0 ? (char)(1 + vh_below(255)) : style == 1 ? (vh_chance(90) ? 'a' + (int)vh_below(26) : w[vh_below(15)]) : style == 2 ? CLS[vh_below(NC)] : w[vh_below(15)]; }
		s[n] = 0; vh_op("mode %d: \"%s\"", mode, vh_quote(s, n));
		for (mode = 0; mode < 4; mode++) one(s, n, mode);
		vh_digest(vh_hash_bytes(s, n)); vh_max("longest string", n); vh_count("random strings", 1); vh_nontrivial(); free(s);
	}
}
