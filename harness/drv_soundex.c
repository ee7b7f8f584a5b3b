/* C17: Soundex.  The reference first reduces the string to its letters, then codes it. */
#include "vh.h"
#include <locale.h>
#include <ctype.h>
static int code(int c)
{
	switch (c) {
	case 'b': case 'f': case 'p': case 'v': return '1';
	case 'c': case 'g': case 'j': case 'k': case 'q': case 's': case 'x': case 'z': return '2';
	case 'd': case 't': return '3';
	case 'l': return '4';
	case 'm': case 'n': return '5';
	case 'r': return '6';
	}
	return '0';
}
static void reference(const char *s, char *out)
{
	int n = 0, prev = 0, k;
	for (; *s; s++) {
		int c = (unsigned char)*s;
		if (c >= 'A' && c <= 'Z') c += 'a' - 'A';
		if (c < 'a' || c > 'z') continue;
		k = code(c);
		if (n == 0) out[n++] = (char)(c - 'a' + 'A');
		else if (k != prev && k != '0' && n < 4) out[n++] = (char)k;
		prev = k;
	}
	if (!n) out[n++] = 'Z';
	while (n < 4) out[n++] = '0';
	out[4] = 0;
}
static void one(const char *s, unsigned n)
{
	char w[5], *b = vh_arg(s, n + 1), *r = malloc(5); const char *g; char area[24];
	reference(s, w);
	memset(r, 0x7e, 5); txt_soundex2(b, r);
	if (memcmp(r, w, 5)) vh_fail("code-wrong", "code of \"%s\" is \"%s\", should be \"%s\"", vh_quote(s, n), vh_quote(r, 5), w);
	memset(area, 0x7e, sizeof area); txt_soundex2(b, area + 8);
	{ int i; for (i = 0; i < 24; i++) if ((i < 8 || i > 12) && area[i] != 0x7e) vh_fail("write-outside", "byte %d relative to the buffer of five was written for \"%s\"", i - 8, vh_quote(s, n)); }
	g = txt_soundex(b);
	if (strcmp(g, w)) vh_fail("code-wrong", "code of \"%s\" is \"%s\", should be \"%s\"", vh_quote(s, n), vh_quote(g, strnlen(g, 10)), w);
	if (memcmp(b, s, n + 1)) vh_fail("input-changed", "the string was modified");
	vh_unarg(b); free(r); vh_count("strings coded", 1); vh_count("oracle checks", 4);
}
/* a locale in which bytes above 127 are letters with capitals (there is none installed) */
static int latin; static unsigned short cb[384]; static int up[384], low[384];
extern const unsigned short **__real___ctype_b_loc(void); extern const int **__real___ctype_toupper_loc(void), **__real___ctype_tolower_loc(void);
const unsigned short **__wrap___ctype_b_loc(void) { static const unsigned short *p = cb + 128; return latin ? &p : __real___ctype_b_loc(); }
const int **__wrap___ctype_toupper_loc(void) { static const int *p = up + 128; return latin ? &p : __real___ctype_toupper_loc(); }
const int **__wrap___ctype_tolower_loc(void) { static const int *p = low + 128; return latin ? &p : __real___ctype_tolower_loc(); }
int __wrap_toupper(int c) { return c < -128 || c > 255 ? c : (*__wrap___ctype_toupper_loc())[c]; }
int __wrap_tolower(int c) { return c < -128 || c > 255 ? c : (*__wrap___ctype_tolower_loc())[c]; }
#define IS(f, m) extern int __real_##f(int); int __wrap_##f(int c) { return latin && c >= 128 && c < 256 ? cb[128 + c] & (m) : __real_##f(c); }
IS(isalpha, _ISalpha) IS(isupper, _ISupper) IS(islower, _ISlower) IS(isalnum, _ISalnum) IS(isprint, _ISprint)
static void make_latin(void)
{
	int c; const unsigned short *b = *__real___ctype_b_loc(); const int *u = *__real___ctype_toupper_loc(), *l = *__real___ctype_tolower_loc();
	for (c = -128; c < 256; c++) { cb[c + 128] = b[c]; up[c + 128] = u[c]; low[c + 128] = l[c]; }
	for (c = 160; c < 256; c++) {
		int L = c >= 0xc0, lo = c >= 0xe0;
		cb[c + 128] = (unsigned short)(_ISprint | _ISgraph | (L ? _ISalpha | _ISalnum | (lo ? _ISlower : _ISupper) : _ISpunct));
		if (L) { up[c + 128] = lo ? c - 32 : c; low[c + 128] = lo ? c : c + 32; }
		if (c != 255) { cb[c - 128] = cb[c + 128]; up[c - 128] = up[c + 128]; low[c - 128] = low[c + 128]; }
	}
}
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; make_latin(); }
void vh_case(uint64_t idx)
{
	vh_digest(idx); vh_nontrivial();
	latin = 0; setlocale(LC_ALL, idx & 1 ? "C.UTF-8" : "C"); latin = (idx / 2) % 3 == 1; if (latin) vh_count("executions with letters above 127 in the locale", 1);
	if (idx < 26 * 26) {   /* all four-letter words, case by the low bits; three letters with a high byte or separator inside */
		char s[8]; int c, d, k = 0;
		s[0] = 'a' + (int)(idx / 26); s[1] = 'a' + (int)(idx % 26);
		s[2] = 0; one(s, 2);
		for (c = 0; c < 26; c++) { s[2] = 'a' + c; s[3] = 0; one(s, 3); for (d = 0; d < 26; d++, k++) { int i; char t[8]; s[3] = 'a' + d; s[4] = 0; for (i = 0; i < 5; i++) t[i] = s[i] && (k * 7 + i * 5 + (int)idx) % 3 == 0 ? s[i] - 32 : s[i]; one(t, 4); } }
		for (c = 1; c < 256; c++) { s[2] = (char)c; s[3] = s[1]; s[4] = 'r'; s[5] = 0; one(s, 5); s[0] = (char)c; s[1] = 'a' + (int)(idx % 26); s[2] = 'a' + (int)(idx / 26); s[3] = 0; one(s, 3); s[0] = 'a' + (int)(idx / 26); }
		vh_count("words of the enumeration", 26 * 26 + 26 + 1); if (idx < 1) vh_sample("all words of two to four letters beginning \"aa\", and every byte value inside and in front");
		return;
	}
	if (vh_chance(50)) {   /* long runs of one kind of byte before, between and behind the letters that matter */
		unsigned n = 0, q, parts = 1 + (unsigned)vh_below(5), i, L[5], kind; char *s;
		for (q = 0; q < parts; q++) { static const unsigned b[] = { 4, 64, 128, 256, 512, 1024, 4096, 32768, 65536 }; L[q] = vh_chance(50) ? b[vh_below(9)] - 3 + (unsigned)vh_below(7) : (unsigned)vh_below(vh_chance(5) ? 200000 : 2000); n += L[q] + 4; }
		s = malloc(n + 1); n = 0;
		for (q = 0; q < parts; q++) {
			kind = (unsigned)vh_below(5); if (q) for (i = 0; i < 1 + vh_below(3); i++) s[n++] = (vh_chance(50) ? 'a' : 'A') + (char)vh_below(26);
			for (i = 0; i < L[q]; i++, n++) s[n] = kind == 0 ? '-' : kind == 1 ? "aeiouhwyAEIOUHWY"[vh_below(16)] : kind == 2 ? "bB"[vh_below(2)] : kind == 3 ? (char)(128 + vh_below(128)) : ' ';
		}
		s[n] = 0; vh_op("a string of %u bytes", n); one(s, n); vh_digest(vh_hash_bytes(s, n)); vh_max("longest string", n); free(s); vh_count("strings of runs", 1);
	}
	{
		unsigned k;
		for (k = 0; k < 200; k++) {
			unsigned n = vh_chance(3) ? (unsigned)vh_below(3000) : (unsigned)vh_below(16), i, style = (unsigned)vh_below(5); char *s = malloc(n + 1);
			for (i = 0; i < n; i++) s[i] = style == 0 ? (char)(1 + vh_below(255)) : style == 1 ? "bfpvcgjkqsxzdtlmnraehiouwyBFHW"[vh_below(30)] : style == 2 ? (vh_chance(50) ? '-' : 'a' + (int)vh_below(26)) : style == 3 ? (char)(128 + vh_below(128)) : (vh_chance(30) ? "@[`{\x7f\xc0\xe0 0"[vh_below(9)] : 'A' + (int)vh_below(26));
			s[n] = 0; vh_op("\"%s\"", vh_quote(s, n)); one(s, n); vh_digest(vh_hash_bytes(s, n)); free(s); vh_count("random strings", 1);
		}
	}
}
