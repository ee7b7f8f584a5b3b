/* acct.h -- which live heap blocks were taken inside library calls, by tag (ASan/MSan builds) */
#ifndef ACCT_H
#define ACCT_H
#include "vh.h"
#include <stdatomic.h>
#define ACCT_SLOTS (1u << 21)
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
typedef struct { const volatile void *p; int tag; unsigned size; } acct_slot;
static acct_slot *acct_tab; static int acct_tag, acct_pid; static unsigned acct_used;
static long acct_live[256]; static long acct_total;
static inline unsigned acct_h(const volatile void *p) { uintptr_t x = (uintptr_t)p >> 4; x *= 0x9e3779b97f4a7c15ULL; return (unsigned)(x >> 40) & (ACCT_SLOTS - 1); }
static void acct_malloc(const volatile void *p, size_t n)
{
	unsigned i;
	if (!acct_tag || !p) return;
	for (i = acct_h(p); acct_tab[i].p && acct_tab[i].p != p; i = (i + 1) & (ACCT_SLOTS - 1)) ;
	if (!acct_tab[i].p) { if (++acct_used > ACCT_SLOTS / 2) { static const char m[] = "acct: table full\n"; (void)!write(2, m, sizeof m - 1); _exit(20); } acct_tab[i].p = p; }
	acct_tab[i].tag = acct_tag; acct_tab[i].size = (unsigned)n;
	acct_live[acct_tag]++; acct_total++;
}
static void acct_free(const volatile void *p)
{
	unsigned i;
	if (!p) return;
	for (i = acct_h(p); acct_tab[i].p && acct_tab[i].p != p; i = (i + 1) & (ACCT_SLOTS - 1)) ;
	if (acct_tab[i].p && acct_tab[i].tag) { acct_live[acct_tab[i].tag]--; acct_total--; acct_tab[i].tag = 0; }
}
static __attribute__((unused)) void acct_init(void)
{
	acct_tab = calloc(ACCT_SLOTS, sizeof *acct_tab);
	if (!__sanitizer_install_malloc_and_free_hooks(acct_malloc, acct_free)) { fprintf(stderr, "acct: no hooks\n"); _exit(20); }
}
/* between cases, when nothing tagged is live */
static __attribute__((unused)) void acct_reset(void) { acct_tag = 0; if (acct_used > ACCT_SLOTS / 4) { memset(acct_tab, 0, ACCT_SLOTS * sizeof *acct_tab); acct_used = 0; } memset(acct_live, 0, sizeof acct_live); acct_total = 0; }
/* forget all blocks still live (a case that ended) */
static __attribute__((unused)) void acct_forget(void) { memset(acct_tab, 0, ACCT_SLOTS * sizeof *acct_tab); acct_used = 0; memset(acct_live, 0, sizeof acct_live); acct_total = 0; }
#define ACCT(tag, expr) do { acct_tag = (tag); expr; acct_tag = 0; } while (0)
#endif
