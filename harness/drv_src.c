/* C25: source positions (MSG=0);  C26: source messages and concrete spellings (MSG=1) */
#include "vh.h"
#ifndef MSG
#define MSG 0
#endif
typedef struct { char *b; size_t n; } line;
typedef struct { src_Type t; const char *file; long line, offset; int length; long index; } token;
static line *L; static long nL, cL; static token *T; static long nT, cT;
static char **F; static int nF; static const char *cfile; static long cline, coffset, cindex; static long total_tokens, bytes; static int exists;
static uint64_t h;
static char *keep(const char *s) { F = realloc(F, (size_t)(nF + 1) * sizeof *F); return F[nF++] = strdup(s); }
static int ROOM(uint64_t n) { return (long)n < 2000000000 - coffset ? (int)n : 0; }   /* offsets are ints */
static char *name(int rich)
{
	static char b[70010]; size_t i, n = vh_below(700) == 0 ? vh_below(70000) : vh_chance(4) ? 500 + vh_below(2000) : vh_below(14);
	for (i = 0; i < n; i++) b[i] = vh_chance(10) ? (rich ? "/.%- \\\xe9'"[vh_below(8)] : "/.%-"[vh_below(4)]) : (char)('a' + vh_below(26));
	b[n] = 0; return b;
}
static void fresh(void) { long i; for (i = 0; i < nL; i++) free(L[i].b); nL = nT = 0; cfile = NULL; cline = coffset = cindex = 0; total_tokens = bytes = 0; exists = 0; }
static void forget_names(void) { while (nF) free(F[--nF]); }
static void add_line(size_t n, int nl)
{
	char *b = malloc(n ? n : 1), *g; const char *r; size_t i;
	for (i = 0; i < n; i++) b[i] = vh_chance(12) ? "\t\t %\x80\xff\r\x01\n\\"[vh_below(9 + !nl)] : (char)(33 + vh_below(94));
	for (i = 0; i < n; i++) if (b[i] == '\n') b[i] = 'n';
	if (nl && n) b[n - 1] = '\n';
	g = vh_arg(b, n);
	r = src_line(g, (int)n);
	memset(g, 0x5a, n); vh_unarg(g);
	for (i = 0; i < n; i++) if (b[i] == '\t') b[i] = ' ';
	VH_CHECK(r && strlen(r) == n && !memcmp(r, b, n), "line-wrong", "line of %zu bytes is stored as \"%s\" (%zu bytes), should be \"%s\"", n, r ? vh_quote(r, strlen(r)) : "NULL", r ? strlen(r) : 0, vh_quote(b, n));
	if (nL == cL) L = realloc(L, (size_t)(cL = cL * 2 + 64) * sizeof *L);
	L[nL].b = b; L[nL].n = n; cindex = nL++; cline++; coffset = 0; bytes += (long)n + 1; exists = 1;
	vh_max("longest line", n); vh_count("lines", 1); vh_count("bytes of lines", n);
}
static void take(int len)
{
	token *t; if (nT == cT) T = realloc(T, (size_t)(cT = cT * 2 + 64) * sizeof *T);
	t = &T[nT++]; t->t = src_get(len); t->file = cfile; t->line = cline; t->offset = coffset; t->length = len; t->index = nL ? cindex : -1;
	VH_CHECK(t->t, "no-token", "src_get returns NULL"); coffset += len; total_tokens++; vh_max("greatest offset", (uint64_t)t->offset); vh_count("tokens", 1);
}
static void look(const token *t)
{
	const char *s; long i = t - T;
	VH_CHECK(src_linenumber(t->t) == t->line, "line-number", "token %ld of %ld has line %d, should be %ld", i, nT, src_linenumber(t->t), t->line);
	VH_CHECK(src_offset(t->t) == t->offset, "offset", "token %ld of %ld has offset %d, should be %ld", i, nT, src_offset(t->t), t->offset);
	VH_CHECK(src_length(t->t) == t->length, "length", "token %ld has length %d, should be %d", i, src_length(t->t), t->length);
	if (t->file) { s = src_filename(t->t); VH_CHECK(s && !strcmp(s, t->file), "file", "token %ld has file \"%s\", should be \"%s\"", i, s ? vh_quote(s, strlen(s)) : "NULL", vh_quote(t->file, strlen(t->file))); }
	if (t->index >= 0) { s = src_source_line(t->t); VH_CHECK(s && strlen(s) == L[t->index].n && !memcmp(s, L[t->index].b, L[t->index].n), "source-line", "token %ld has the line \"%s\", should be number %ld \"%s\"", i, s ? vh_quote(s, strlen(s)) : "NULL", t->index, vh_quote(L[t->index].b, L[t->index].n)); }
	vh_count("tokens looked at", 1);
}
static void check_nulls(void)
{
	VH_CHECK(src_linenumber(NULL) == 0 && src_offset(NULL) == 0 && src_length(NULL) == 0 && !*src_filename(NULL) && !*src_source_line(NULL), "null-token", "no token gives line %d, offset %d, length %d, file \"%s\", text \"%s\"", src_linenumber(NULL), src_offset(NULL), src_length(NULL), src_filename(NULL), src_source_line(NULL));
	vh_count("null tokens", 1);
}
static void check_stats(void)
{
	src_Stats s = src_get_stats(); char *b = NULL; size_t n; FILE *f; long v[6]; int k = 0; char *p;
	VH_CHECK(s->lines_used == nL && s->lines_allocated >= nL && s->lines_bytes == bytes, "stats-lines", "statistics: %d lines of %d, %d bytes; should be %ld lines, %ld bytes", s->lines_used, s->lines_allocated, s->lines_bytes, nL, bytes);
	VH_CHECK(s->tokens_total == total_tokens && s->tokens_reused == 0, "stats-tokens", "statistics: %d tokens, %d reused; should be %ld, 0", s->tokens_total, s->tokens_reused, total_tokens);
	VH_CHECK(exists ? s->tokens_size > 0 : s->tokens_size == 0 && s->lines_allocated == 0, "stats-size", "statistics: token size %d, %d lines allocated", s->tokens_size, s->lines_allocated);
	f = open_memstream(&b, &n); src_print_stats(f); fclose(f);
	for (p = b; *p && k < 6; ) { if (*p >= '0' && *p <= '9') v[k++] = strtol(p, &p, 10); else p++; }
	VH_CHECK(k == 6 && v[0] == nL && v[1] == bytes && v[2] == s->lines_allocated && v[3] == total_tokens && v[4] == total_tokens * s->tokens_size && v[5] == 0, "stats-printed", "printed statistics are \"%s\"", vh_quote(b, n));
	free(b); free(s); vh_count("statistics read", 1);
}
#if !MSG
static int which;
static void misuse(void *a)
{
	(void)a;
	if (which < 7) src_destroy();
	switch (which) { case 0: src_get(1); break; case 1: src_filename(NULL); break; case 2: src_linenumber(NULL); break; case 3: src_offset(NULL); break; case 4: src_length(NULL); break; case 5: src_source_line(NULL); break; case 6: src_create(); src_create(); break; default: src_line("a", 1); src_create(); }
}
static void refusals(void)
{
	vh_result r; which = (int)vh_below(8);
	vh_child(&r, misuse, NULL);
	VH_CHECK(!vh_is_sanitizer(&r), "memory-error", "%s", r.err);
	VH_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1 && r.errlen, "not-refused", "use without a manager (%d) gives 0x%x \"%s\"", which, r.status, vh_quote(r.err, r.errlen));
	vh_result_free(&r); vh_count("refusals", 1);
}
static void marker(void)
{
	static char b[71000]; char *g, *f = NULL, *p = b; long n = vh_chance(10) ? 0 : vh_chance(10) ? 1 : vh_chance(5) ? (long)vh_below(2000000000) : (long)vh_below(3000); int q, hasfile = vh_chance(70);
	p += sprintf(p, "%s%s%ld", vh_chance(50) ? "#" : "#line", vh_chance(20) ? " \t" : " ", n);
	if (hasfile) { f = keep(name(0)); q = (int)vh_below(3); if (!*f) q = 1; p += sprintf(p, q == 0 ? " %s" : q == 1 ? " \"%s\"" : " '%s'", f); if (vh_chance(40)) p += sprintf(p, " 1 3"); }
	if (vh_chance(70)) *p++ = '\n';
	g = malloc((size_t)(p - b) + 40); memcpy(g, b, (size_t)(p - b)); { char *x = vh_chance(50) ? (memcpy(g + (p - b), " 77 \"behind\"", 13), vh_arg(g, (size_t)(p - b) + 13)) : vh_arg(b, (size_t)(p - b)); free(g); g = x; }
	vh_op("marker \"%s\"", vh_quote(b, (size_t)(p - b)));
	src_cpp_line(g, (int)(p - b)); vh_unarg(g);
	cline = n > 0 ? n - 1 : 1; if (hasfile) cfile = f;
	vh_count("line markers", 1);
}
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
void vh_case(uint64_t idx)
{
	int lives = 1 + (int)vh_below(3), big = vh_chance(4) || (idx < 40 && idx % 10 == 0), changes = 0;
	h = 0;
	if (vh_chance(15)) refusals();
	while (lives--) {
		long steps = big ? vh_chance(6) || (idx < 40 && idx % 10 == 0) ? 190000 : 4000 + (long)vh_below(vh_thorough ? 60000 : 4000) : 10 + (long)vh_below(250), i;
		int calm = big && vh_chance(50);   /* numbering left alone: line numbers grow far */
		if (vh_chance(20)) check_stats();
		if (calm && vh_chance(80)) { cline = (long)(vh_u64() >> (33 + vh_below(30))); if (cline > 1900000000) cline = 1900000000; src_new_line((int)cline); }
		if (vh_chance(30)) { src_create(); exists = 1; check_stats(); if (vh_chance(30)) take((int)vh_below(10)); }
		while (steps--) {
			int k = (int)vh_below(100);
			if (!exists && k >= 30) k = (int)vh_below(30);
			if (calm && k >= 30 && k < 40) k = 50;
			if (k < 25) { size_t n = vh_chance(5) ? 0 : vh_below(big ? 20000 : 3000) == 0 ? 50000 + vh_below(1000000) : vh_chance(2) && !(big && vh_chance(95)) ? 5000 + vh_below(50000) : vh_below(90); vh_op("line of %zu bytes", n); add_line(n, vh_chance(60)); }
			else if (k < 30) { char *s = name(1), *f = keep(s), *g = vh_arg(s, strlen(s) + 1); vh_op("file \"%s\"", vh_quote(s, strlen(s))); src_new_file(g); memset(g, 0x5a, strlen(f)); vh_unarg(g); cfile = f; changes++; vh_count("new-file notices", 1); }
			else if (k < 35) { long n = vh_chance(10) ? 2000000000 - (long)vh_below(10) : vh_chance(8) ? 0 : vh_chance(5) ? -(long)vh_below(2000000000) : (long)vh_below(5000); vh_op("line number %ld", n); src_new_line((int)n); cline = n; changes++; vh_count("new-line notices", 1); }
			else if (k < 40) { marker(); changes++; }
			else if (k < 45) { int n = vh_chance(3) ? ROOM(vh_below(vh_chance(50) ? 200000 : 2000000000)) : ROOM(vh_below(30)); vh_op("advance %d", n); if (coffset && vh_chance(15)) { n = -(int)vh_below(vh_chance(50) ? (uint64_t)coffset + 1 : coffset < 30 ? coffset + 1 : 30); vh_count("advances backwards", 1); } src_advance(n); coffset += n; vh_count("advances", 1); }
			else if (k < 85) { int n = vh_chance(10) ? 0 : vh_chance(2) ? ROOM(vh_below(vh_chance(50) ? 200000 : 2000000000)) : ROOM(vh_below(20)); vh_op("token of %d", n); take(n); look(&T[nT - 1]); }
			else if (k < 97) { if (nT) look(&T[vh_below((uint64_t)nT)]); }
			else if (k < 98) check_nulls();
			else if (vh_chance(big ? 5 : 100)) check_stats();
			if (cline > 2000000000) { src_new_line(5); cline = 5; }
		}
		if (!exists) add_line(3, 1);
		for (i = 0; i < nT; i++) look(&T[i]);
		if (exists) check_nulls();
		check_stats();
		h = vh_mix(h, (uint64_t)nT * 1000003 + (uint64_t)nL); vh_max("lines of one manager", (uint64_t)nL); if (calm) vh_max("lines of one numbering", (uint64_t)nL); vh_max("tokens of one manager", (uint64_t)nT);
		if (nT > 10 && changes > 2) vh_nontrivial();
		vh_op("destroy");
		src_destroy(); fresh(); forget_names(); vh_count("managers", 1);
	}
	if (vh_chance(20)) { src_destroy(); check_stats(); }
	vh_digest(h);
	if (idx < 2) vh_sample("%d changes of file or line number", changes);
}
#else
typedef struct { char *sym, *con; } spell;
static spell S[5000]; static int nS;
static const char *concrete(const char *s, size_t n) { int i; for (i = 0; i < nS; i++) if (strlen(S[i].sym) == n && !memcmp(S[i].sym, s, n)) return S[i].con; return NULL; }
/* what becomes of a parse error message.  An unterminated name at the very end may be given its closing quote or not: *open tells. */
static char *rewritten(const char *m, int *open)
{
	size_t n = strlen(m), c = n * 2 + 100, at = 0, i = 0; char *o = malloc(c);
	*open = 0;
#define ADD(p, k) do { size_t kk = (k); if (at + kk + 10 > c) o = realloc(o, c = (at + kk) * 2 + 100); memcpy(o + at, p, kk); at += kk; } while (0)
	while (i < n) {
		if (i + 4 < n && m[i] == '`' && m[i + 1] == '`' && m[i + 3] == '\'' && m[i + 4] == '\'') { char t[3] = { '`', m[i + 2], '\'' }; ADD(t, 3); i += 5; vh_count("quoted characters simplified", 1); continue; }
		if (m[i] == '`' && i + 2 < n && m[i + 1] == 'T' && m[i + 2] == '_') {
			size_t e = i + 1; const char *r;
			while (e < n && m[e] != '\'') e++;
			r = concrete(m + i + 1, e - i - 1);
			ADD("`", 1); if (r) { ADD(r, strlen(r)); vh_count("names replaced", 1); } else { ADD(m + i + 1, e - i - 1); vh_count("names kept", 1); }
			if (e < n) { ADD("'", 1); e++; } else { *open = 1; vh_count("unterminated names", 1); }
			i = e; continue;
		}
		ADD(m + i, 1); i++;
	}
	o[at] = 0;
	return o;
}
static char *message(void)
{
	size_t c = 400000, at = 0; char *b = malloc(c + 5000); int parts = (int)vh_below(12);
	*b = 0;
	while (parts-- && at < c - 130000) {
		switch (vh_below(9)) {
		case 0: at += (size_t)sprintf(b + at, "``%c''", (int)(1 + vh_below(255))); break;
		case 1: at += (size_t)sprintf(b + at, "`%s'", nS ? S[vh_below(nS)].sym : "T_NONE"); break;
		case 2: at += (size_t)sprintf(b + at, "`T_%.*s'", (int)vh_below(9), "UNKNOWN_X"); break;
		case 3: { size_t n = vh_chance(10) ? 2000 + vh_below(100000) : vh_below(40), k; b[at++] = '`'; b[at++] = 'T'; b[at++] = '_'; for (k = 0; k < n; k++) b[at++] = "ABCX_ %"[vh_below(7)]; if (vh_chance(70)) b[at++] = '\''; b[at] = 0; break; }
		case 4: { static const char *const t[] = { "`", "``", "'", "''", "``'", "``x'", "``x", "`T", "`T_", "`T_'", "``T_''", "```''", "`'", "%s%d%n", "``''", "`T'", "`t_x'", "````''''" }; at += (size_t)sprintf(b + at, "%s", t[vh_below(18)]); break; }
		case 5: { size_t n = vh_chance(10) ? vh_below(100000) : vh_below(30), k; for (k = 0; k < n; k++) b[at++] = (char)(1 + vh_below(255)); b[at] = 0; break; }
		default: at += (size_t)sprintf(b + at, "parse error, expecting %d", (int)vh_below(100));
		}
	}
	{ char *x = vh_arg(b, at + 1); free(b); return x; }
}
static char *prefix(const token *t) { char *b; if (asprintf(&b, t ? "%s:%ld: " : "?:?: ", t ? t->file : "", t ? t->line : 0) < 0) _exit(20); return b; }
static void tail(FILE *f, const token *t)      /* what the source line and the markers look like */
{
	char *p = prefix(t); long i;
	fputs(p, f);
	if (t) fwrite(L[t->index].b, 1, L[t->index].n, f); else fputs("<source line not available>\n", f);
	fputs(p, f);
	if (t) { for (i = 0; i < t->offset; i++) putc(' ', f); for (i = 0; i < t->length; i++) putc('^', f); }
	putc('\n', f);
	free(p);
}
static struct { const token *t; int kind, asfmt, how; const char *m; } X;
static const char *const KN[] = { "src_parse_error", "src_print_error", "src_print_message", "src_print_line" };
static void say(FILE *f)
{
	src_Type t = X.t ? X.t->t : NULL;
	switch (X.kind) {
	case 0: src_parse_error(f, t, X.m); break;
	case 1: if (!X.m) src_print_error(f, t, NULL); else if (X.asfmt || !*X.m) src_print_error(f, t, X.m); else if (X.how) src_print_error(f, t, "%s", X.m); else src_print_error(f, t, "<%d %s %c>", 42, X.m, 'z'); break;
	case 2: if (!X.m) src_print_message(f, t, NULL); else if (X.asfmt || !*X.m) src_print_message(f, t, X.m); else if (X.how) src_print_message(f, t, "%s", X.m); else src_print_message(f, t, "<%d %s %c>", 42, X.m, 'z'); break;
	default: src_print_line(f, t);
	}
}
static void to_stdout(void *a) { (void)a; printf("before:"); say(NULL); printf(":after"); }
static void report(void)
{
	char *m = vh_chance(4) ? NULL : vh_chance(4) ? vh_arg("", 1) : message(), *want[2] = { NULL, NULL }, *got = NULL; size_t nw[2], ng; FILE *f; int open = 0, v; char *p;
	X.t = nT && vh_chance(88) ? &T[vh_below((uint64_t)nT)] : NULL; X.kind = (int)vh_below(4); X.how = (int)vh_below(2); X.m = m; X.asfmt = 0;
	if (m && X.kind && vh_chance(35)) { char *q; for (q = m; *q; q++) if (*q == '%') *q = '/'; X.asfmt = 1; if (X.kind < 3) vh_count("messages given as the format", 1); }
	if (X.t && !X.t->file) X.t = NULL;
	p = prefix(X.t);
	for (v = 0; v < 2; v++) {
		f = open_memstream(&want[v], &nw[v]);
		switch (X.kind) {
		case 0: fputs(p, f); if (!m) fputs("(null)", f); else { char *r = rewritten(m, &open); fputs(r, f); if (open && v) putc('\'', f); free(r); } putc('\n', f); tail(f, X.t); break;
		case 1: if (m) { fputs(p, f); fprintf(f, X.asfmt || X.how || !*m ? "%s" : "<42 %s z>", m); putc('\n', f); } tail(f, X.t); break;
		case 2: if (m) { fputs(p, f); fprintf(f, X.asfmt || X.how || !*m ? "%s" : "<42 %s z>", m); putc('\n', f); } break;
		default: fputs(p, f); if (X.t) fwrite(L[X.t->index].b, 1, L[X.t->index].n, f); else fputs("<source line not available>\n", f);
		}
		fclose(f);
	}
	vh_op("%s of %zu bytes, %s", KN[X.kind], m ? strlen(m) : 0, X.t ? "token" : "no token");
	if (vh_chance(6)) {
		vh_result r; vh_child_exit(&r, to_stdout, NULL);
		VH_CHECK(!vh_is_sanitizer(&r) && WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "stdout-crash", "%s without a stream ended with 0x%x: %s", KN[X.kind], r.status, r.err);
		VH_CHECK(r.outlen >= 13 && !memcmp(r.out, "before:", 7) && !memcmp(r.out + r.outlen - 6, ":after", 6), "stdout-order", "%s without a stream gives \"%s\"", KN[X.kind], vh_quote(r.out, r.outlen));
		ng = r.outlen - 13; got = malloc(ng + 1); memcpy(got, r.out + 7, ng); got[ng] = 0; vh_result_free(&r); vh_count("reports to standard output", 1);
	} else { f = open_memstream(&got, &ng); say(f); fclose(f); }
	for (v = 0; v < 2; v++) if (ng == nw[v] && !memcmp(got, want[v], ng)) break;
	if (v == 2) { size_t i; for (i = 0; i < ng && i < nw[0] && got[i] == want[0][i]; i++) ; vh_fail("report-wrong", "%s (message \"%s\") gives %zu bytes, should be %zu; they differ at byte %zu: \"%s\", should be \"%s\"", KN[X.kind], m ? vh_quote(m, strlen(m) < 100 ? strlen(m) : 100) : "NULL", ng, nw[0], i, vh_quote(got + i, ng - i < 60 ? ng - i : 60), vh_quote(want[0] + i, nw[0] - i < 60 ? nw[0] - i : 60)); }
	vh_count("oracle checks", 1); vh_count("reports compared", 1); if (!X.t) vh_count("reports without a token", 1);
	if (m && !*m) vh_count("empty messages", 1);
	if (X.t && X.kind < 2) vh_count("caret lines compared", 1);
	h = vh_mix(h, (uint64_t)X.kind * 1000003 + ng);
	free(want[0]); free(want[1]); free(got); free(p); vh_unarg(m);
}
static void spelling(void)
{
	static char sym[70010], con[70010]; char *a, *b; const char *g; size_t i, n;
	if (nS && vh_chance(25)) strcpy(sym, S[vh_below(nS)].sym);
	else { n = vh_below(300) == 0 ? vh_below(70000) : vh_chance(5) ? 1000 + vh_below(1500) : 1 + vh_below(6); strcpy(sym, vh_chance(85) ? "T_" : ""); for (i = strlen(sym), n += i; i < n; i++) sym[i] = (char)('A' + vh_below(6)); sym[i] = 0; if (vh_chance(2)) *sym = 0; }
	n = vh_below(300) == 0 ? vh_below(70000) : vh_chance(5) ? 1000 + vh_below(1500) : vh_below(8); for (i = 0; i < n; i++) con[i] = vh_chance(30) ? "%+-'`\xe4 \n"[vh_below(8)] : (char)('a' + vh_below(26)); con[i] = 0;
	a = vh_arg(sym, strlen(sym) + 1); b = vh_arg(con, strlen(con) + 1);
	prs_register_concrete(a, b); memset(a, 0x5a, strlen(sym)); memset(b, 0x5a, strlen(con)); vh_unarg(a); vh_unarg(b);
	if (!concrete(sym, strlen(sym)) && nS < 5000) { S[nS].sym = strdup(sym); S[nS].con = strdup(con); nS++; } else vh_count("second registrations", 1);
	g = prs_concrete(sym); VH_CHECK(g && !strcmp(g, concrete(sym, strlen(sym))), "spelling", "the spelling of \"%s\" is \"%s\", should be \"%s\"", vh_quote(sym, strlen(sym)), g ? vh_quote(g, strlen(g)) : "NULL", concrete(sym, strlen(sym)));
	vh_count("registrations", 1);
}
static void check_spellings(void)
{
	int i; char b[12]; const char *g;
	for (i = 0; i < nS; i++) { g = prs_concrete(S[i].sym); if (!g || strcmp(g, S[i].con)) vh_fail("spelling", "the spelling of \"%s\" is \"%s\", should be \"%s\"", vh_quote(S[i].sym, strlen(S[i].sym)), g ? vh_quote(g, strlen(g)) : "NULL", vh_quote(S[i].con, strlen(S[i].con))); }
	for (i = 0; i < 20; i++) { snprintf(b, sizeof b, "T_%c%c%c", (int)('A' + vh_below(8)), (int)('A' + vh_below(8)), (int)('A' + vh_below(8))); g = prs_concrete(b); VH_CHECK(!g == !concrete(b, strlen(b)), "spelling-invented", "\"%s\" has the spelling \"%s\"", b, g ? g : "NULL"); }
	vh_count("tables of spellings compared", 1);
}
static void forget_spellings(void) { while (nS) { nS--; free(S[nS].sym); free(S[nS].con); } }
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
void vh_case(uint64_t idx)
{
	int lives = 1 + (int)vh_below(2); long steps, reports = 0;
	h = 0;
	while (lives--) {
		VH_CHECK(!prs_concrete("T_A"), "spelling-left", "a spelling from before the shut-down is still there");
		if (vh_chance(50)) { char *s = name(1), *f = keep(s); src_new_file(f); cfile = f; }
		steps = 20 + (long)vh_below(100);
		while (steps--) {
			int k = (int)vh_below(100);
			if (k < 15) add_line(vh_chance(5) ? 2000 + vh_below(vh_chance(10) ? 150000 : 5000) : 1 + vh_below(90), 1);
			else if (k < 20) { char *s = name(1), *f = keep(s); src_new_file(f); cfile = f; }
			else if (k < 23) { long n = vh_chance(15) ? 0 : (long)vh_below(100000); src_new_line((int)n); cline = n; }
			else if (k < 28) { int n = vh_chance(5) ? (int)vh_below(vh_chance(5) ? 150000 : 3000) : (int)vh_below(30); src_advance(n); coffset += n; }
			else if (k < 45) { if (nL) { int n = vh_chance(10) ? 0 : vh_chance(5) ? (int)vh_below(vh_chance(5) ? 150000 : 5000) : (int)vh_below(20); take(n); } }
			else if (k < 65) { int m = vh_chance(3) ? 300 : 1; while (m--) spelling(); }
			else if (k < 66) check_spellings();
			else { report(); reports++; }
		}
		check_spellings();
		if (!nL) add_line(5, 1);
		if (nS && nT && reports > 5) vh_nontrivial();
		src_destroy(); fresh(); forget_names();
		if (vh_chance(70) || 1) { _prs_shutdown(); forget_spellings(); vh_count("tables shut down", 1); }
	}
	vh_digest(h);
	if (idx < 2) vh_sample("%ld reports", reports);
}
#endif
