/* C16: bits */
#include "vh.h"
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
static unsigned long word(void)
{
	unsigned long v = vh_u64(); unsigned a = (unsigned)vh_below(64), b = (unsigned)vh_below(64), t;
	switch (vh_below(8)) {
	case 0: return 0; case 1: return ~0UL; case 2: return 1UL << a; case 3: return ~(1UL << a);
	case 4: if (a > b) { t = a; a = b; b = t; } return (~0UL >> (63 - b)) & (~0UL << a);
	case 5: return v & vh_u64() & vh_u64(); case 6: return v | vh_u64() | vh_u64(); default: return v;
	}
}
void vh_case(uint64_t idx)
{
	unsigned k; int b; uint64_t h = 0;
	for (k = 0; k < 100; k++) {
		unsigned long w = word(), *p = malloc(sizeof *p); int n = 0, g; uint64_t want = w;
		for (b = 0; b < 64; b++) n += (int)(want >> b & 1);
		*p = w; g = bit_cnt(p);
		VH_CHECK(g == n && *p == w, "count-wrong", "count of 0x%lx is %d, should be %d (word now 0x%lx)", w, g, n, *p);
		for (b = 0; b < 64; b++) {
			g = bit_tst(p, b);
			VH_CHECK(!!g == (int)(w >> b & 1) && *p == w, "test-wrong", "test of bit %d of 0x%lx is %d (word now 0x%lx)", b, w, g, *p);
			bit_set(p, b); VH_CHECK(*p == (w | (uint64_t)1 << b), "set-wrong", "setting bit %d of 0x%lx gives 0x%lx", b, w, *p);
			*p = w; bit_clr(p, b); VH_CHECK(*p == (w & ~((uint64_t)1 << b)), "clear-wrong", "clearing bit %d of 0x%lx gives 0x%lx", b, w, *p);
			*p = w;
		}
		{ unsigned long m = w; unsigned j; for (j = 0; j < 40; j++) { b = (int)vh_below(64); switch (vh_below(3)) { case 0: bit_set(p, b); m |= 1UL << b; break; case 1: bit_clr(p, b); m &= ~(1UL << b); break; default: VH_CHECK(!!bit_tst(p, b) == (int)(m >> b & 1), "test-wrong", "bit %d of 0x%lx", b, m); } VH_CHECK(*p == m && bit_cnt(p) == __builtin_popcountl(m), "history-wrong", "word is 0x%lx, should be 0x%lx", *p, m); } }
		free(p); h = vh_mix(h, w); vh_count("words", 1); vh_count("word and position pairs", 64);
	}
	vh_digest(h); vh_nontrivial();
	if (idx < 2) vh_sample("100 words x 64 positions, set, cleared, tested, counted");
}
