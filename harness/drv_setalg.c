/* C05: set algebra */
#include "hkit.h"
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
#define MAXS 7
typedef struct { set_Set s; char *in; unsigned count; const void **ptr; int ro; } st;
static hk_universe U; static st P[MAXS]; static int np;
static int opset, self;

static void fresh(st *x, set_Set s) { x->s = s; x->in = calloc(U.n + 1, 1); x->ptr = calloc(U.n + 1, sizeof(void *)); x->count = 0; x->ro = 0; }
static void drop(st *x) { if (x->ro) set_readonly(x->s, 0); set_destroy(x->s); free(x->in); free(x->ptr); }
static const void *kp(unsigned i) { return vh_chance(50) ? U.alias[i] : U.key[i]; }

static st *vx; static char *vmark; static st *va, *vb; static unsigned vn;
static int which(const void *e)
{
	static void **idx; (void)idx;
	unsigned i;
	/* pointers identify elements: key[i] or alias[i] */
	if (U.kind == HK_PTR) { for (i = 0; i < U.n; i++) if (U.key[i] == e) return (int)i; return -1; }
	{
		/* hashed index, built once per case */
		extern int find_ptr(const void *); return find_ptr(e);
	}
}
static struct pe { const void *p; unsigned i; } *PE; static unsigned npe;
static int pecmp(const void *a, const void *b) { uintptr_t p = (uintptr_t)((const struct pe *)a)->p, q = (uintptr_t)((const struct pe *)b)->p; return p < q ? -1 : p > q; }
int find_ptr(const void *e) { struct pe k, *r; k.p = e; k.i = 0; r = bsearch(&k, PE, npe, sizeof *PE, pecmp); return r ? (int)r->i : -1; }
static void index_ptrs(void) { unsigned i; PE = malloc(sizeof *PE * (2 * U.n + 1)); npe = 0; for (i = 0; i < U.n; i++) { PE[npe].p = U.key[i]; PE[npe++].i = i; if (U.kind != HK_PTR) { PE[npe].p = U.alias[i]; PE[npe++].i = i; } } qsort(PE, npe, sizeof *PE, pecmp); }

static int vis(const void *e)
{
	int i = which(e);
	if (i < 0) vh_fail("foreign-element", "a set holds pointer %p, which no operand held", e);
	if (vmark[i]) vh_fail("element-twice", "a set holds %s twice", hk_show(&U, i));
	if (!vx->in[i]) vh_fail("element-extra", "a set holds %s, which does not belong there", hk_show(&U, i));
	vmark[i] = 1; vn++;
	if (va) { /* a fresh result: learn the pointers, which must come from an operand */
		if (!((va->in[i] && va->ptr[i] == e) || (vb->in[i] && vb->ptr[i] == e))) vh_fail("pointer-not-from-operand", "%s is held by a pointer neither operand held", hk_show(&U, i));
		vx->ptr[i] = e;
	} else if (vx->ptr[i] != e) vh_fail("pointer-changed", "the pointer stored for %s changed", hk_show(&U, i));
	return 0;
}
static void verify(st *x, st *a, st *b, const char *what)
{
	unsigned i; int m;
	vx = x; va = a; vb = b; vn = 0; vmark = calloc(U.n + 1, 1);
	VH_CHECK((unsigned)set_count(x->s) == x->count, "count-wrong", "%s: count %d, should be %u", what, set_count(x->s), x->count);
	set_iterate(x->s, vis);
	VH_CHECK(vn == x->count, "element-missing", "%s: %u elements presented, %u expected", what, vn, x->count);
	free(vmark);
	for (i = 0; i < U.n; i += U.n > 300 ? 1 + vh_below(9) : 1) { int r = set_member(x->s, hk_ask(&U, i)); VH_CHECK(r == x->in[i], "membership-wrong", "%s: membership of %s is %d", what, hk_show(&U, i), r); }
	m = set_readonly(x->s, x->ro);
	VH_CHECK(!!m == !!x->ro, "mark-changed", "%s: the read-only mark is %d, was %d", what, m, x->ro);
	VH_CHECK(set_get_hash(x->s) == (U.hash ? U.hash : hsh_string_hash) && set_get_compare(x->s) == (U.cmp ? U.cmp : hsh_string_compare), "functions-wrong", "%s: hash or compare function differs from the operands'", what);
	vh_count("complete set comparisons", 1);
}
struct refuse { set_Set a, b; int op; };
static void do_refuse(void *v)
{
	struct refuse *r = v;
	switch (r->op) {
	case 0: set_union(r->a, r->b); break; case 1: set_inter(r->a, r->b); break; case 2: set_diff(r->a, r->b); break;
	case 3: set_add(r->a, r->b); break; case 4: set_del(r->a, r->b); break; case 5: set_equal(r->a, r->b); break;
	}
}
static unsigned long h2(const void *k) { return hk_h_id(k) * 3; }
static int c2(const void *a, const void *b) { return hk_c_rec(a, b); }
static void refusals(void)
{
	static const char *opn[] = { "set_union", "set_inter", "set_diff", "set_add", "set_del", "set_equal" };
	struct refuse r; vh_result res; int diff, i; hk_rec rec[4]; unsigned na = vh_below(4), nb = vh_below(4);
	for (i = 0; i < 4; i++) { memset(&rec[i], 0, sizeof rec[i]); rec[i].id = i; }
	for (r.op = 0; r.op < 6; r.op++) for (diff = 1; diff < 4; diff++) {
		r.a = set_create(hk_h_id, hk_c_rec); r.b = set_create(diff & 1 ? h2 : hk_h_id, diff & 2 ? c2 : hk_c_rec);
		for (i = 0; i < (int)na; i++) set_insert(r.a, &rec[i]);
		for (i = 0; i < (int)nb; i++) set_insert(r.b, &rec[i]);
		vh_op("%s on sets with different functions (%d), sizes %u %u", opn[r.op], diff, na, nb);
		vh_child(&res, do_refuse, &r);
		if (vh_is_sanitizer(&res)) { fputs(res.err, stderr); vh_fail("refusal-memory-error", "%s: %.1500s", opn[r.op], res.err); }
		if (res.timed_out) vh_inconclusive("child timed out");
		VH_CHECK(WIFEXITED(res.status) && WEXITSTATUS(res.status) == 1 && res.errlen > 0, "mismatch-not-refused", "%s of sets with different %s: status %x, stderr \"%.200s\"", opn[r.op], diff == 1 ? "hash functions" : diff == 2 ? "compare functions" : "functions", res.status, res.err);
		vh_count("refusals", 1);
		vh_result_free(&res); set_destroy(r.a); set_destroy(r.b);
	}
}
void vh_case(uint64_t idx)
{
	static const unsigned sz[] = { 1, 3, 8, 20, 60, 200 };
	unsigned n = sz[vh_below(6)], k, ops, i; int j;
	int kind = (int)vh_below(HK_NKINDS);
	if (idx % 60 == 4 && kind != HK_STR_CONST && kind != HK_STR_LOW && kind != HK_STR_NESTED && kind != HK_REC_TWO) n = 4000;
	if (idx % 100 == 1) refusals();
	hk_make(&U, kind, n); index_ptrs(); np = 0; opset = self = 0;
	vh_op("universe %s, %u keys", hk_kind_name[kind], n);
	for (j = 0; j < 2 + (int)vh_below(3); j++) {
		int dens = (int)vh_below(4) == 0 ? 0 : (int)vh_below(4) == 0 ? 100 : (int)vh_below(101);
		if (n > 1000 && j) dens = 1;
		fresh(&P[np], set_create(U.hash, U.cmp));
		for (i = 0; i < n; i++) if (vh_chance(dens)) { const void *p = kp(i); if (set_insert(P[np].s, p)) vh_fail("insert-result", "insert of new element"); P[np].in[i] = 1; P[np].ptr[i] = p; P[np].count++; }
		/* leave large tables with few elements behind sometimes */
		if (vh_chance(30)) for (i = 0; i < n; i++) if (P[np].in[i] && vh_chance(90)) { if (set_delete(P[np].s, hk_ask(&U, i))) vh_fail("delete-result", "delete of present element"); P[np].in[i] = 0; P[np].count--; }
		vh_op("set %d: %u elements", np, P[np].count);
		np++;
	}
	ops = n > 1000 ? 8 : 15 + vh_below(40);
	for (k = 0; k < ops; k++) {
		int a = (int)vh_below(np), b = vh_chance(20) ? a : (int)vh_below(np), op = (int)vh_below(9);
		st *A = &P[a], *B = &P[b];
		char what[80];
		if (vh_chance(20)) { A->ro = !A->ro; set_readonly(A->s, A->ro); }
		if (a == b && op < 6) { self++; vh_count("self-applications", 1); }
		if (op < 3) {
			static const char *nm[] = { "union", "intersection", "difference" }; set_Set r; st R;
			snprintf(what, sizeof what, "%s of sets %d and %d", nm[op], a, b); vh_op("%s (%u, %u elements)", what, A->count, B->count);
			r = op == 0 ? set_union(A->s, B->s) : op == 1 ? set_inter(A->s, B->s) : set_diff(A->s, B->s);
			VH_CHECK(r != NULL, "no-result", "%s gave NULL", what);
			for (j = 0; j < np; j++) VH_CHECK(r != P[j].s, "not-new", "%s returned an existing set", what);
			fresh(&R, r);
			for (i = 0; i < n; i++) { R.in[i] = op == 0 ? A->in[i] | B->in[i] : op == 1 ? A->in[i] & B->in[i] : A->in[i] & !B->in[i]; R.count += R.in[i]; }
			verify(&R, A, B, what);
			verify(A, NULL, NULL, "first operand"); verify(B, NULL, NULL, "second operand");
			vh_count(op == 0 ? "unions" : op == 1 ? "intersections" : "differences", 1);
			/* the result is independent of its operands */
			if (vh_chance(20)) { j = (int)vh_below(np); if (np > 2) { drop(&P[j]); P[j] = P[--np]; } }
			if (np < MAXS && vh_chance(60)) P[np++] = R;
			else { j = (int)vh_below(np); drop(&P[j]); P[j] = R; verify(&R, NULL, NULL, "result after the operand is gone"); }
		} else if (op < 5) {
			set_Set r; unsigned c = 0;
			if (A->ro) { A->ro = 0; set_readonly(A->s, 0); }
			snprintf(what, sizeof what, "in-place %s of sets %d and %d", op == 3 ? "addition" : "removal", a, b); vh_op("%s (%u, %u elements)", what, A->count, B->count);
			r = op == 3 ? set_add(A->s, B->s) : set_del(A->s, B->s);
			VH_CHECK(r == A->s, "in-place-result", "%s returned %p, not its first operand", what, r);
			for (i = 0; i < n; i++) { if (op == 3) { if (B->in[i] && !A->in[i]) { A->in[i] = 1; A->ptr[i] = B->ptr[i]; } } else if (a == b || B->in[i]) A->in[i] = 0; }
			for (i = 0; i < n; i++) c += A->in[i];
			A->count = c;
			verify(A, NULL, NULL, what); if (a != b) verify(B, NULL, NULL, "second operand");
			vh_count(op == 3 ? "in-place additions" : "in-place removals", 1);
		} else if (op == 5) {
			int want, r;
			if (vh_chance(60) && a != b) { /* nearly equal sets */
				if (!A->ro) { for (i = 0; i < n; i++) if (A->in[i] != B->in[i]) { if (A->in[i]) { set_delete(A->s, hk_ask(&U, i)); A->in[i] = 0; A->count--; } else { const void *p = kp(i); set_insert(A->s, p); A->in[i] = 1; A->ptr[i] = p; A->count++; } }
					if (vh_chance(60)) { i = vh_below(n); if (A->in[i]) { set_delete(A->s, hk_ask(&U, i)); A->in[i] = 0; A->count--; if (vh_chance(50)) { i = vh_below(n); if (!A->in[i]) { const void *p = kp(i); set_insert(A->s, p); A->in[i] = 1; A->ptr[i] = p; A->count++; } } } } }
			}
			want = !memcmp(A->in, B->in, n);
			vh_op("equality of sets %d and %d (%u, %u elements)", a, b, A->count, B->count);
			r = set_equal(A->s, B->s);
			VH_CHECK(!!r == want, "equality-wrong", "equality of sets with %u and %u elements gives %d, should be %d", A->count, B->count, r, want);
			vh_count("equality tests", 1); vh_count(want ? "equality tests with equal sets" : "equality tests with different sets", 1);
			verify(A, NULL, NULL, "first operand of equality"); if (a != b) verify(B, NULL, NULL, "second operand of equality");
		} else {
			if (A->ro) { A->ro = 0; set_readonly(A->s, 0); }
			i = vh_below(n);
			if (A->in[i]) { VH_CHECK(set_delete(A->s, hk_ask(&U, i)) == 0, "delete-result", "delete of present element"); A->in[i] = 0; A->count--; }
			else { const void *p = kp(i); VH_CHECK(set_insert(A->s, p) == 0, "insert-result", "insert of new element"); A->in[i] = 1; A->ptr[i] = p; A->count++; }
			continue;
		}
		opset |= 1 << op; vh_digest(op * 64 + a * 8 + b); vh_digest(A->count);
	}
	for (j = 0; j < np; j++) { verify(&P[j], NULL, NULL, "at the end"); vh_digest(vh_hash_bytes(P[j].in, n)); }
	if ((opset & 31) == 31 && self) vh_nontrivial();
	if (idx < 2) vh_sample("universe %s of %u, %u operations, %d self-applications, %d sets at the end with %u, %u .. elements", hk_kind_name[kind], n, ops, self, np, P[0].count, P[1].count);
	while (np) drop(&P[--np]);
	free(PE); hk_verify_free(&U);
}
