/* C15: primes */
#include "vh.h"
static unsigned char *small; static unsigned *pr; static unsigned npr;
static int is_small(unsigned v) { return v < (1u << 20) && small[v]; }
void vh_setup(int argc, char **argv)
{
	unsigned i, j; (void)argc; (void)argv;
	small = malloc(1 << 20); memset(small, 1, 1 << 20); small[0] = small[1] = 0;
	for (i = 2; i < 1024; i++) if (small[i]) for (j = i * i; j < (1u << 20); j += i) small[j] = 0;
	pr = malloc(sizeof *pr * 90000); for (i = 0; i < (1u << 20); i++) if (small[i]) pr[npr++] = i;
}
static void segment(uint64_t lo, unsigned n, unsigned char *out)
{
	unsigned k; uint64_t m;
	memset(out, 1, n);
	for (k = 0; k < n && lo + k < 2; k++) out[k] = 0;
	for (k = 0; k < npr && (uint64_t)pr[k] * pr[k] < lo + n; k++) {
		uint64_t p = pr[k]; m = (lo + p - 1) / p * p; if (m < p * p) m = p * p;
		for (; m < lo + n; m += p) out[m - lo] = 0;
	}
}
static void test(uint64_t v, int want) { int g = prm_is_prime((unsigned)v); vh_count("primality tests", 1); if (g != want) vh_fail("primality-wrong", "prm_is_prime(%llu) is %d, should be %d", (unsigned long long)v, g, want); }
static void next(uint64_t v, uint64_t want) { unsigned long g = prm_next_prime((unsigned)v); vh_count("next primes", 1); if (g != want) vh_fail("next-prime-wrong", "prm_next_prime(%llu) is %lu, should be %llu", (unsigned long long)v, g, (unsigned long long)want); }
static int slow_prime(uint64_t v) { unsigned k; if (v < 2) return 0; for (k = 0; k < npr && (uint64_t)pr[k] * pr[k] <= v; k++) if (v % pr[k] == 0) return 0; return 1; }
static void window(uint64_t lo, unsigned n)
{
	unsigned char *o = malloc(n); unsigned k, last = 0; int have = 0; uint64_t base = lo;
	if (lo + n > 4294967296ULL) lo = base = 4294967296ULL - n;
	segment(lo, n, o);
	for (k = 0; k < n; k++) {
		test(base + k, o[k]);
		if (o[k] && (base + k) % 2) {
			uint64_t p = base + k, q = have ? base + last : 0;
			next(p, p);
			if (have && p > q + 1) { next(q + 1, p); if (vh_chance(30)) next(p - 1, p); if (p - q > 4) next(q + 1 + vh_below(p - q - 1), p); }
			have = 1; last = k; vh_count("primes among the values tested", 1);
		}
	}
	free(o);
}
void vh_case(uint64_t idx)
{
	unsigned k; unsigned W = vh_thorough ? 4096 : 1024;
	vh_digest(idx);
	vh_nontrivial();
	if (idx < 64) { window(idx * 16384, 16384); vh_op("all values from %u", (unsigned)idx * 16384); if (idx == 0) { for (k = 0; k < 3; k++) { next(k, 3); } next(3, 3); next(4, 5); vh_sample("every value below 2^20 (64 cases)"); } vh_count("oracle checks", 16384); return; }
	if (idx < 64 + 66) {  /* squares and products of neighbouring primes, all primes below 65536 */
		for (k = (unsigned)(idx - 64) * 100; k < (unsigned)(idx - 63) * 100 && k < npr && pr[k] < 65536; k++) {
			uint64_t p = pr[k], q = pr[k + 1], s = p * p; int d;
			test(s, 0); vh_count("squares of primes", 1);
			if (p * q < 4294967296ULL) test(p * q, 0);
			for (d = -2; d <= 2; d++) if (d && s + d < 4294967296ULL) test(s + d, slow_prime(s + d));
			if (vh_chance(20) && s < 4294967290ULL) { uint64_t w = s | 1; while (!slow_prime(w)) w += 2; next(s, w); }
		}
		vh_count("oracle checks", 500); return;
	}
	if (idx < 64 + 66 + 8) { uint64_t lo = 4294967296ULL - (idx - 129) * 512; window(lo, 512); vh_op("window at the top %llu", (unsigned long long)lo); if (idx == 130) { next(4294967291ULL, 4294967291ULL); next(4294967280ULL, 4294967291ULL); vh_sample("the last 4096 values below 2^32"); } return; }
	{
		uint64_t lo; unsigned b = (unsigned)vh_below(33);
		lo = vh_chance(30) ? vh_below(4294967296ULL - W) : vh_chance(50) ? (1ULL << b) + vh_below(2000) : vh_below((1ULL << b) + 1);
		if (vh_chance(10)) { static const uint64_t sp[] = { 65535ULL * 65535, 65536ULL * 65535, 65521ULL * 65521, 2147483647ULL, 2147483648ULL, 46341ULL * 46341, 65537ULL * 65533 }; lo = sp[vh_below(7)] - W / 2; }
		vh_op("window from %llu", (unsigned long long)lo); vh_digest(lo);
		window(lo, W); vh_count("random windows", 1);
		/* strong semiprimes: both factors near the square root */
		for (k = 0; k < 40; k++) { unsigned i = (unsigned)vh_below(6542), j = i + (unsigned)vh_below(20); uint64_t v = (uint64_t)pr[i] * pr[j]; if (v < 4294967296ULL) { test(v, 0); vh_count("semiprimes", 1); } }
		vh_count("oracle checks", W + 40);
		if (idx < 141) vh_sample("all %u values from %llu", W, (unsigned long long)lo);
	}
}
