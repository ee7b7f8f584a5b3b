/* C14: base 64 and base 26.  -DSWEEP: blocks of consecutive values */
#include "vh.h"
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", A26[] = "abcdefghijklmnopqrstuvwxyz";
#define TOP64 4294967296ULL
#define TOP26 8031810176ULL
static unsigned numeral(uint64_t v, int base, char *out)
{
	char r[16]; unsigned n = 0, i;
	do { r[n++] = (base == 64 ? A64 : A26)[v % base]; v /= base; } while (v);
	for (i = 0; i < n; i++) out[i] = r[n - 1 - i];
	out[n] = 0;
	return n;
}
static const char *enc(int base, uint64_t v) { return base == 64 ? b64_encode(v) : b26_encode(v); }
static void check_value(int base, uint64_t v, const char *want)
{
	const char *g = enc(base, v); uint64_t d; char keep[16];
	if (strcmp(g, want)) vh_fail("encode-wrong", "base %d of %llu is \"%s\", should be \"%s\"", base, (unsigned long long)v, vh_quote(g, strnlen(g, 20)), want);
	strcpy(keep, g);
	d = base == 64 ? b64_decode(keep) : b26_decode(keep);
	if (d != v) vh_fail("decode-wrong", "base %d \"%s\" decodes to %llu, should be %llu", base, keep, (unsigned long long)d, (unsigned long long)v);
}
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
#ifdef SWEEP
#define BLK (1u << 22)
#define QBLK (1u << 15)
void vh_case(uint64_t idx)
{
	int base = idx < TOP64 / BLK ? 64 : 26; uint64_t start, n, v; char s[16], digs[12]; int len, i, b = base; const char *al; uint64_t top;
	if (!vh_thorough) base = b = idx & 1 ? 26 : 64;
	top = base == 64 ? TOP64 : TOP26; al = base == 64 ? A64 : A26;
	if (vh_thorough) { start = (base == 64 ? idx : idx - TOP64 / BLK) * (uint64_t)BLK; n = BLK; if (start >= top) return; if (start + n > top) n = top - start; }
	else { n = QBLK; start = idx < 2 ? 0 : idx < 4 ? top - n : vh_below(top - n); }
	/* an odometer of digits, independent of the library */
	{ uint64_t w = start; for (len = 0; len == 0 || w; len++) { digs[len] = (char)(w % b); w /= b; } }
	for (v = start; v < start + n; v++) {
		for (i = 0; i < len; i++) s[i] = al[(int)digs[len - 1 - i]];
		s[len] = 0;
		check_value(base, v, s);
		for (i = 0; ; i++) { if (i == len) { digs[len++] = 1; break; } if (++digs[i] < b) break; digs[i] = 0; }
	}
	vh_count(base == 64 ? "base 64 values swept" : "base 26 values swept", n); vh_count("oracle checks", 2 * n);
	vh_digest(start); vh_digest(base); vh_nontrivial();
	if (idx < 2) vh_sample("base %d: all values %llu .. %llu", base, (unsigned long long)start, (unsigned long long)(start + n - 1));
}
#else
static uint64_t pick(int base)
{
	uint64_t top = base == 64 ? TOP64 : TOP26, v, p = 1; unsigned k;
	switch (vh_below(4)) {
	case 0: return vh_below(top);
	case 1: for (k = (unsigned)vh_below(8); k--; ) p *= base; v = p + vh_below(5) - 2; return v % top;       /* around powers of the base */
	case 2: return (1ULL << vh_below(33)) % top + vh_below(2);
	default: return vh_chance(50) ? top - 1 - vh_below(70) : vh_below(5000);
	}
}
static const char *bad; static unsigned badlen; static int badhow;
static void child(void *a) { volatile uint64_t r; (void)a; r = badhow == 26 ? b26_decode(bad) : badhow == 64 ? b64_decode(bad) : b64_decode_buf(bad, badlen); printf("accepted as %llu\n", (unsigned long long)r); fflush(stdout); }
static void refuse(int how, const char *s, unsigned n)
{
	vh_result r; bad = s; badlen = n; badhow = how;
	vh_op("refuse %d \"%s\"", how, vh_quote(s, n));
	vh_child(&r, child, NULL);
	VH_CHECK(!vh_is_sanitizer(&r), "refusal-memory-error", "decoding \"%s\": %s", vh_quote(s, n), r.err);
	VH_CHECK(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT && r.errlen > 10, "not-refused", "base %d: \"%s\" is not refused: status 0x%x, output \"%s\", diagnosis \"%s\"", how & 0x7f, vh_quote(s, n), r.status, r.out, vh_quote(r.err, r.errlen));
	vh_result_free(&r); vh_count("refusals", 1);
}
void vh_case(uint64_t idx)
{
	unsigned k; uint64_t h = 0;
	for (k = 0; k < 300; k++) {
		int base = vh_chance(50) ? 64 : 26, i; uint64_t v = pick(base), d, w; char s[32], t[32]; unsigned n, z; char *b;
		n = numeral(v, base, s);
		if (vh_chance(30)) { enc(90 - base, pick(90 - base)); }                     /* the other code in between */
		if (vh_chance(20)) { w = pick(base); numeral(w, base, t); check_value(base, w, t); check_value(base, v, s); check_value(base, v, s); }
		check_value(base, v, s); h = vh_mix(h, v);
		/* leading zeros, in an exact-size buffer */
		z = (unsigned)vh_below(10 - n + 1); for (i = 0; i < (int)z; i++) t[i] = (base == 64 ? A64 : A26)[0];
		strcpy(t + z, s); b = vh_arg(t, z + n + 1);
		d = base == 64 ? b64_decode(b) : b26_decode(b); vh_unarg(b);
		VH_CHECK(d == v, "decode-zeros", "base %d \"%s\" decodes to %llu, should be %llu", base, t, (unsigned long long)d, (unsigned long long)v);
		/* numerals of any digits, up to ten */
		n = (unsigned)vh_below(11); for (w = 0, i = 0; i < (int)n; i++) { int q = (int)vh_below(base); t[i] = (base == 64 ? A64 : A26)[q]; w = w * base + q; } t[n] = 0;
		if (n) { b = vh_arg(t, n + 1); d = base == 64 ? b64_decode(b) : b26_decode(b); vh_unarg(b); VH_CHECK(d == w, "decode-wrong", "base %d \"%s\" decodes to %llu, should be %llu", base, t, (unsigned long long)d, (unsigned long long)w); }
		if (base == 64) { /* exactly the given length: nothing readable behind it, or more digits behind it */
			b = vh_arg(t, n); d = b64_decode_buf(b, n); vh_unarg(b);
			VH_CHECK(d == w, "decode-length", "base 64, %u bytes of \"%s\" decode to %llu, should be %llu", n, t, (unsigned long long)d, (unsigned long long)w);
			if (n > 1) { unsigned m = (unsigned)vh_below(n); uint64_t x = 0; for (i = 0; i < (int)m; i++) x = x * 64 + (strchr(A64, t[i]) - A64); if (vh_chance(50)) t[m] = "-=\x80 "[vh_below(4)]; d = b64_decode_buf(t, m); VH_CHECK(d == x, "decode-length", "base 64, %u bytes of \"%s\" decode to %llu, should be %llu", m, t, (unsigned long long)d, (unsigned long long)x); }
			vh_count("decodings by length", 1);
		}
		vh_count("values round-tripped", 1);
	}
	/* every byte outside the alphabets is refused, somewhere in the numeral */
	for (k = 0; k < 8; k++) {
		unsigned c = (unsigned)(idx * 8 + k) & 255; int how;
		for (how = 0; how < 3; how++) {
			char s[16]; unsigned n = 1 + (unsigned)vh_below(7), i, at = (unsigned)vh_below(n); int base = how ? 64 : 26;
			if (!c && how != 2) continue;
			if (c && strchr(base == 64 ? A64 : A26, (int)c)) continue;
			if (how == 0 && c >= 'A' && c <= 'Z') ;  /* upper case is outside the base-26 alphabet */
			for (i = 0; i < n; i++) s[i] = (base == 64 ? A64 : A26)[vh_below(base)];
			s[n] = 0; s[at] = (char)c;
			refuse(how == 0 ? 26 : how == 1 ? 64 : 64 + 128, s, n);
		}
	}
	vh_digest(h); vh_nontrivial();
	if (idx < 2) vh_sample("300 values per base interleaved; bytes 0x%02x..0x%02x refused", (unsigned)(idx * 8) & 255, (unsigned)(idx * 8 + 7) & 255);
}
#endif
