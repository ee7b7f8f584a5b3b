/* C03: growth and accounting of hash tables and sets */
#include "cont.h"
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }

static int is_prime(unsigned long v)
{
	unsigned long d;
	if (v < 2) return 0;
	for (d = 2; d * d <= v; d++) if (v % d == 0) return 0;
	return 1;
}
static unsigned long last_size, resizings, retrievals, hits, misses;
static int sampled;
static uint64_t growths, partitions, max_chain, print_checks;

static cstats check(cont *c, const char *when)
{
	cstats s = c_stats(c);
	vh_count("statistics read", 1);
	VH_CHECK(is_prime(s.size), "size-not-prime", "size %lu is not a prime (%s)", s.size, when);
	{
		unsigned long d = s.resizings - resizings, need = last_size ? last_size : 1, j;
		if (s.size == last_size || !last_size) VH_CHECK(d == 0, "resizings-wrong", "%lu resizings reported, %lu seen", s.resizings, resizings);
		else {
			VH_CHECK(sampled ? d >= 1 && d < 30 : d == 1, "resizings-wrong", "%lu resizings reported after size went from %lu to %lu, %lu before", s.resizings, last_size, s.size, resizings);
			for (j = 0; j < d; j++) need *= 3;
			VH_CHECK(s.size >= need, "growth-small", "size went from %lu to %lu in %lu steps", last_size, s.size, d);
		}
		growths += d; resizings = s.resizings;
	}
	last_size = s.size;
	VH_CHECK(s.entries == c->count, "entries-wrong", "%lu entries reported, %u present (%s)", s.entries, c->count, when);
	VH_CHECK(s.used <= s.size && s.used <= s.entries && s.singles <= s.used && (s.entries == 0) == (s.used == 0), "layout-inconsistent", "size %lu entries %lu used %lu singletons %lu longest %lu", s.size, s.entries, s.used, s.singles, s.maxlen);
	{
		unsigned long multi = s.used - s.singles, rest = s.entries - s.singles;
		if (!multi) VH_CHECK(rest == 0 && s.maxlen == (s.used ? 1u : 0u), "layout-inconsistent", "entries %lu used %lu singletons %lu longest %lu", s.entries, s.used, s.singles, s.maxlen);
		else VH_CHECK(s.maxlen >= 2 && rest >= 2 * (multi - 1) + s.maxlen && rest <= multi * s.maxlen, "layout-inconsistent", "entries %lu used %lu singletons %lu longest %lu", s.entries, s.used, s.singles, s.maxlen);
	}
	VH_CHECK(s.retrievals == retrievals, "retrievals-wrong", "%lu retrievals reported, %lu made (%s)", s.retrievals, retrievals, when);
	VH_CHECK(s.misses == misses, "misses-wrong", "%lu failed retrievals reported, %lu made (%s)", s.misses, misses, when);
	VH_CHECK(s.hits >= hits && s.hits + s.misses <= s.retrievals, "hits-wrong", "%lu hits reported, %lu known", s.hits, hits);
	hits = s.hits;
	if (c->u.hash == hk_h_const && c->count) VH_CHECK(s.used == 1 && s.maxlen == c->count && s.singles == (c->count == 1), "layout-wrong", "constant hash with %u entries: used %lu singletons %lu longest %lu", c->count, s.used, s.singles, s.maxlen);
	return s;
}
/* one look-up with its effect on the counters; 1 if it was a hit */
static int look(cont *c, unsigned i)
{
	cstats s; unsigned long h = hits;
	c_look(c, i); retrievals++;
	if (!c->in[i]) misses++;
	s = check(c, "after a look-up");
	if (!c->in[i]) VH_CHECK(s.hits == h, "hits-wrong", "a failed look-up was counted as a hit");
	VH_CHECK(s.hits - h <= 1, "hits-wrong", "one look-up counted as %lu hits", s.hits - h);
	return s.hits != h;
}
static void readonly_pass(cont *c)
{
	unsigned i, fronts = 0; char *was = calloc(c->u.n, 1); cstats s; int pass;
	if (c_readonly(c, 1)) vh_fail("mark", "unexpected read-only mark");
	for (pass = 0; pass < 2 + (int)vh_below(2); pass++)
		for (i = 0; i < c->u.n; i++) {
			int h = look(c, pass ? c->u.n - 1 - i : i); unsigned k = pass ? c->u.n - 1 - i : i;
			if (!pass) { was[k] = h; fronts += h; }
			else VH_CHECK(h == was[k], "readonly-reorganised", "look-up of %s in a read-only container: front %d, before %d", hk_show(&c->u, k), h, was[k]);
		}
	c_readonly(c, 0);
	s = check(c, "after read-only look-ups");
	VH_CHECK(fronts == s.used, "hits-wrong", "%u keys are at the front of their chain, %lu chains in use", fronts, s.used);
	vh_count("read-only passes", 1);
	free(was);
}
static void partition(cont *c)
{
	unsigned *rep = malloc(sizeof *rep * (c->u.n + 1)), *len = malloc(sizeof *len * (c->u.n + 1)), nc = 0, i, j, singles = 0, longest = 0; cstats s;
	for (i = 0; i < c->u.n; i++) {
		int found = 0;
		if (!c->in[i]) continue;
		look(c, i);
		VH_CHECK(look(c, i) == 1, "not-front-after-lookup", "look-up of %s right after a successful one is no hit", hk_show(&c->u, i));
		c_readonly(c, 1);
		for (j = 0; j < nc && !found; j++) if (!look(c, rep[j])) { found = 1; rep[j] = i; len[j]++; }
		c_readonly(c, 0);
		if (!found) { rep[nc] = i; len[nc++] = 1; }
	}
	for (j = 0; j < nc; j++) { singles += len[j] == 1; if (len[j] > longest) longest = len[j]; }
	s = check(c, "after observing the chains");
	VH_CHECK(s.used == nc && s.singles == singles && s.maxlen == longest, "layout-wrong", "observed %u chains, %u of one entry, longest %u; reported %lu, %lu, %lu", nc, singles, longest, s.used, s.singles, s.maxlen);
	if (longest > max_chain) max_chain = longest;
	partitions++;
	free(rep); free(len);
}
/* walks change no number (but for the look-ups made in them), and look-ups reorganise as before */
static cont *wc; static long wleft; static int wret, wlook;
static int wk(void) { if (wlook && vh_chance(30)) { unsigned i = (unsigned)vh_below(wc->u.n); c_look(wc, i); retrievals++; misses += !wc->in[i]; } return wleft-- == 0 ? wret : 0; }
static int wkd(const void *k, const void *d) { (void)k; (void)d; return wk(); }
static int wkda(const void *k, const void *d, void *a) { (void)k; (void)d; (void)a; return wk(); }
static int wke(const void *k) { (void)k; return wk(); }
static int wkea(const void *k, void *a) { (void)k; (void)a; return wk(); }
static void walk(cont *c)
{
	static const int vals[] = { 1, -1, 2, 256, INT_MIN, INT_MAX, 65536 }; int how = (int)vh_below(4), n = 1 + (int)vh_below(3);
	wc = c; wleft = vh_chance(60) ? (long)vh_below(c->count + 1) : -1; wret = vals[vh_below(7)]; wlook = vh_chance(50);
	vh_op("walk %d over %u entries, stop at %ld", how, c->count, wleft);
	if (how == 0) { if (c->isset) set_iterate(c->h, wke); else hsh_iterate(c->h, wkd); }
	else if (how == 1) { if (c->isset) set_iterate_arg(c->h, wkea, NULL); else hsh_iterate_arg(c->h, wkda, NULL); }
	else if (c->isset) { set_Position p; const void *e; SET_ITERATE(c->h, p, e) { (void)e; if (wk()) break; } SET_ITERATE_END(c->h); }
	else { hsh_Position p; void *k, *d; HSH_ITERATE(c->h, p, k, d) { (void)k; (void)d; if (wk()) break; } HSH_ITERATE_END(c->h); }
	check(c, "after a walk");
	while (c->count && n--) { unsigned i = (unsigned)vh_below(c->u.n), j = 0; while (!c->in[i] && j++ < c->u.n) i = (i + 1) % c->u.n; look(c, i); VH_CHECK(look(c, i) == 1, "not-front-after-lookup", "after a walk: look-up of %s right after a successful one is no hit", hk_show(&c->u, i)); }
	vh_count("walks between look-ups", 1);
}
static int has_number(const char *t, unsigned long v)
{
	while (*t) {
		if (*t == '0' && t[1] == 'x') { t += 2; while ((*t >= '0' && *t <= '9') || (*t >= 'a' && *t <= 'f')) t++; continue; }
		if (*t >= '0' && *t <= '9') {
			unsigned long x = strtoul(t, (char **)&t, 10);
			if (x == v && *t != '.') return 1;
			if (*t == '.') { t++; while (*t >= '0' && *t <= '9') t++; }
			continue;
		}
		t++;
	}
	return 0;
}
static int has_average(const char *t, const char *w)
{
	size_t k = strlen(w); const char *p;
	for (p = t; (p = strstr(p, w)); p++) if ((p == t || p[-1] < '0' || p[-1] > '9') && (p[k] < '0' || p[k] > '9')) return 1;
	return 0;
}
static void printed(cont *c)
{
	char *b = NULL; size_t n; FILE *f = open_memstream(&b, &n); cstats s = check(c, "before printing"), s2; int i;
	unsigned long v[9]; static const char *nm[9] = { "resizings", "size", "entries", "buckets used", "singletons", "maximum length", "retrievals", "hits", "misses" };
	if (c->isset) set_print_stats(c->h, f); else hsh_print_stats(c->h, f);
	fclose(f);
	v[0] = s.resizings; v[1] = s.size; v[2] = s.entries; v[3] = s.used; v[4] = s.singles; v[5] = s.maxlen; v[6] = s.retrievals; v[7] = s.hits; v[8] = s.misses;
	for (i = 0; i < 9; i++) VH_CHECK(has_number(b, v[i]), "printed-wrong", "%s is %lu but the printed statistics are: %s", nm[i], v[i], b);
	if (s.used) { char w[60]; snprintf(w, sizeof w, "%.1f", (double)s.entries / (double)s.used); VH_CHECK(strstr(b, w) && has_average(b, w), "printed-average", "%lu entries in %lu buckets are %s each, but the printed statistics are: %s", s.entries, s.used, w, b); }
	s2 = check(c, "after printing");
	VH_CHECK(!memcmp(&s, &s2, sizeof s), "printing-changes", "printing changed the statistics");
	print_checks++;
	free(b);
}
/* sets that come from an operation of two sets */
static unsigned long fresh_size;
static void result_check(set_Set r, const char *what, unsigned n, unsigned m)
{
	set_Stats s = set_get_stats(r); unsigned long least = fresh_size, j;
	VH_CHECK(is_prime(s->size), "size-not-prime", "size %lu of %s is not a prime", (unsigned long)s->size, what);
	for (j = 0; j < s->resizings && least < 1UL << 40; j++) least *= 3;
	VH_CHECK(s->size >= least, "resizings-wrong", "%s of %u and %u: %lu resizings from size %lu are reported, the size is %lu", what, n, m, (unsigned long)s->resizings, fresh_size, (unsigned long)s->size);
	VH_CHECK(s->size == fresh_size || s->resizings, "resizings-wrong", "%s of %u and %u: no resizings are reported, the size is %lu, that of a new set %lu", what, n, m, (unsigned long)s->size, fresh_size);
	VH_CHECK(s->entries == (unsigned long)set_count(r), "entries-wrong", "%s: %lu entries reported, count %d", what, (unsigned long)s->entries, set_count(r));
	VH_CHECK(s->entries <= s->size / 2 + 1, "overfull", "%s: %lu entries in size %lu", what, (unsigned long)s->entries, (unsigned long)s->size);
	VH_CHECK(s->buckets_used <= s->entries && s->singletons <= s->buckets_used && (s->entries == 0) == (s->buckets_used == 0), "layout-inconsistent", "%s: entries %lu used %lu singletons %lu", what, (unsigned long)s->entries, (unsigned long)s->buckets_used, (unsigned long)s->singletons);
	VH_CHECK(s->retrievals == 0 && s->hits == 0 && s->misses == 0, "retrievals-wrong", "%s: %lu retrievals, %lu hits, %lu failed ones of a new set", what, (unsigned long)s->retrievals, (unsigned long)s->hits, (unsigned long)s->misses);
	vh_max("most resizings of a result", s->resizings); xfree(s); vh_count("results of set operations", 1);
}
static void results(void)
{
	static char keys[40000][8]; unsigned n = 1 + (unsigned)vh_below(vh_chance(10) ? 9000 : 300), m = 1 + (unsigned)vh_below(vh_chance(10) ? 9000 : 300), off = vh_chance(30) ? 0 : (unsigned)vh_below(n + 10), i, round; set_Set a = set_create(NULL, NULL), b = set_create(NULL, NULL), r; set_Stats s = set_get_stats(a), s2;
	fresh_size = s->size; xfree(s); if (vh_chance(5)) n = 1 + (unsigned)vh_below(5);
	for (i = 0; i < 20000; i++) if (!keys[i][0]) sprintf(keys[i], "k%u", i); else break;
	for (i = 0; i < n; i++) set_insert(a, keys[i]);
	for (i = 0; i < m; i++) set_insert(b, keys[off + i]);
	if (vh_chance(30)) for (i = 0; i < m; i += 2) set_delete(b, keys[off + i]);   /* more resizings than needed */
	for (round = 0; round < 3; round++) {
		unsigned w = (unsigned)vh_below(3), q; static const char *const nm[] = { "the union", "the intersection", "the difference" };
		r = w == 0 ? set_union(a, b) : w == 1 ? set_inter(a, b) : set_diff(a, b); vh_op("%s of %u and %u elements", nm[w], n, m); result_check(r, nm[w], n, m);
		s = set_get_stats(r);   /* and it grows like any other */
		for (q = 0; q < 300 + s->size / 2 && q < 12000; q++) {
			unsigned long was, wr; if (q > 40 && q % 97) { set_insert(r, keys[19999 - q]); continue; }
			s2 = set_get_stats(r); was = s2->size; wr = s2->resizings; xfree(s2);
			set_insert(r, keys[19999 - q]); s2 = set_get_stats(r);
			VH_CHECK(is_prime(s2->size) && (s2->size == was ? s2->resizings == wr : s2->size >= 3 * was && s2->resizings == wr + 1), "resizings-wrong", "%s grows from size %lu, %lu resizings, to size %lu, %lu resizings", nm[w], was, wr, (unsigned long)s2->size, (unsigned long)s2->resizings);
			VH_CHECK(s2->entries <= s2->size / 2 + 1, "overfull", "%s: %lu entries in size %lu", nm[w], (unsigned long)s2->entries, (unsigned long)s2->size); xfree(s2);
		}
		xfree(s); set_destroy(r);
	}
	set_destroy(a); set_destroy(b);
}
void vh_case(uint64_t idx)
{
	cont c; unsigned n, k, ops, every = 1; int kind = (int)vh_below(HK_NKINDS), isset = (int)vh_below(2);
	static const unsigned sz[] = { 2, 5, 10, 20, 40, 80 };
	n = sz[vh_below(6)];
	growths = partitions = max_chain = print_checks = 0;
	if (idx % 100 == 3) { n = 3000; every = 5; }
	if (idx % 400 == 5) { n = vh_thorough ? 60000 : 14000; every = 61; if (kind == HK_STR_CONST || kind == HK_STR_LOW || kind == HK_STR_NESTED || kind == HK_REC_TWO) kind = HK_STR_DEFAULT; }
	if (n > 1000 && (kind == HK_STR_CONST || kind == HK_STR_LOW || kind == HK_STR_NESTED || kind == HK_REC_TWO)) n = 1000;
	c_make(&c, isset, kind, n);
	last_size = resizings = retrievals = hits = misses = 0;
	sampled = every > 1;
	check(&c, "fresh");
	ops = n > 100 ? n * 3 / 2 : 20 + vh_below(n * 4);
	int w = 70;
	for (k = 0; k < ops; k++) {
		unsigned i = vh_below(n); int r = (int)vh_below(100);
		if (n <= 100 && k % 40 == 0) w = vh_chance(50) ? 80 : 20;
		if (n > 100) { i = k % n; r = k < n ? 0 : 50; w = k < n ? 70 : 30; if (k >= n && vh_chance(60)) continue; }
		if (r < w) {
			c_insert(&c, i);
			if (k % every == 0) {
				cstats s = check(&c, "after an insertion");
				VH_CHECK(s.entries <= s.size / 2 + 1, "overfull", "%lu entries in size %lu after an insertion", s.entries, s.size);
			}
		} else if (r < w + (100 - w) / 2) { c_delete(&c, i); if (k % every == 0) check(&c, "after a deletion"); }
		else if (every > 1) { c_look(&c, i); retrievals++; misses += !c.in[i]; }
		else { look(&c, i); if (c.in[i] && vh_chance(60)) { VH_CHECK(look(&c, i) == 1, "not-front-after-lookup", "look-up of %s right after a successful one is no hit", hk_show(&c.u, i)); } }
		if (n <= 100 && vh_chance(2)) readonly_pass(&c);
		if (n > 100 && vh_below(n) < 12) { /* a read-only interval at this size */
			unsigned m = 1 + vh_below(40);
			c_readonly(&c, 1); while (m--) { unsigned q = vh_below(n); c_look(&c, q); retrievals++; misses += !c.in[q]; } check(&c, "after read-only look-ups in a large container"); c_readonly(&c, 0);
		}
		if (n <= 40 && c.count <= 40 && vh_chance(3)) partition(&c);
		if (n <= 100 ? vh_chance(2) : vh_below(n) < 6) walk(&c);
		if (n <= 100 && vh_chance(1)) printed(&c);
	}
	check(&c, "at the end");
	if (n <= 100) { readonly_pass(&c); if (n <= 40) partition(&c); }
	else { /* the same in steps: both kinds of look-up at every size */
		int round;
		for (round = 0; round < 4; round++) {
			unsigned m = 1 + vh_below(300);
			c_readonly(&c, round & 1);
			while (m--) { unsigned i = vh_below(n); c_look(&c, i); retrievals++; misses += !c.in[i]; if (vh_chance(5)) check(&c, "after look-ups in a large container"); }
			check(&c, "after look-ups in a large container");
			c_readonly(&c, 0); check(&c, "after lifting the mark");
		}
		vh_count("read-only passes over large containers", 1);
	}
	printed(&c);
	vh_count("resizings observed", growths); vh_count("chain partitions observed", partitions); vh_max("longest chain observed", max_chain);
	vh_count("printed statistics parsed", print_checks); vh_max("largest size", last_size);
	vh_digest(last_size); vh_digest(retrievals * 31 + hits); vh_digest(misses * 17 + c.count); vh_digest(kind * 2 + isset);
	if (growths >= 2 && retrievals > 5 && misses) vh_nontrivial();
	if (idx < 2) vh_sample("%s, %s, %u keys, %u operations: %llu resizings, size %lu, %lu retrievals, %lu hits, %lu misses, longest observed chain %llu", isset ? "set" : "table", hk_kind_name[kind], n, ops, (unsigned long long)growths, last_size, retrievals, hits, misses, (unsigned long long)max_chain);
	c_free(&c);
	if (idx % 10 == 1) results();
}
