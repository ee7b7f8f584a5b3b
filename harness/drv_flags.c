/* C18: debugging flags and run-time flags */
#include "vh.h"
enum { DBG, FLG };
typedef struct { char *name; unsigned long flag; int builtin; } reg;
static int kind; static reg R[200]; static unsigned nR; static signed char on[4][30]; static char *dead[4000]; static unsigned ndead; static int inited;
static unsigned long flag_of(int g, int b) { return ((unsigned long)g << 30) | (1UL << b); }
static int group(unsigned long f) { return (int)(f >> 30); }
static int bitno(unsigned long f) { return __builtin_ctzl(f & 0x3fffffff); }
void vh_setup(int argc, char **argv) { (void)argc; (void)argv; }
static const char *K(void) { return kind == DBG ? "dbg" : "flg"; }
static reg *by_flag(unsigned long f) { unsigned i; for (i = 0; i < nR; i++) if (R[i].flag == f) return &R[i]; return NULL; }
static reg *by_name(const char *s) { unsigned i; for (i = 0; i < nR; i++) if (!strcmp(R[i].name, s)) return &R[i]; return NULL; }
static void compare(const char *after)
{
	int g, b;
	for (g = 0; g < 4; g++) for (b = 0; b < 30; b++) if (on[g][b] >= 0) {
		int t = kind == DBG ? dbg_test(flag_of(g, b)) : flg_test(flag_of(g, b)); reg *r;
		if (!!t != on[g][b]) { r = by_flag(flag_of(g, b)); vh_fail("flag-wrong", "%s: flag 0x%lx (\"%s\") tests %d after %s, should be %s", K(), flag_of(g, b), r ? r->name : "unnamed", t, after, on[g][b] ? "on" : "off"); }
	}
	vh_count("oracle checks", 120); vh_count("complete flag comparisons", 1);
}
static char *new_name(void)
{
	static const char ab[] = "abcdefgh_.%d-+ALN\xe9"; char b[64]; unsigned n, i;
	do {
		n = vh_chance(3) ? 60 : 1 + (unsigned)vh_below(8); for (i = 0; i < n; i++) b[i] = ab[vh_below(i ? sizeof ab - 1 : 11)]; b[n] = 0;
		if (vh_chance(25) && nR) { reg *r = &R[vh_below(nR)]; snprintf(b, sizeof b, "%.50s%c", r->name, 'a' + (int)vh_below(3)); }      /* one name the prefix of another */
		if (vh_chance(4)) strcpy(b, (const char *[]){ "allx", "nonex", "al", "non", "ALL", "None" }[vh_below(6)]);
	} while (by_name(b) || !strcmp(b, "all") || !strcmp(b, "none"));
	return strdup(b);
}
static void do_register(unsigned long f, char *name, int dup)
{
	vh_op("%s register 0x%lx \"%s\"", K(), f, name);
	if (kind == FLG) flg_register(f, name); else if (group(f) == 3) _dbg_register(f, name); else dbg_register(f, name);
	if (!dup) { R[nR].name = name; R[nR].flag = f; R[nR++].builtin = kind == DBG && group(f) == 3; }
	vh_count(dup == 2 ? "names given to a second flag" : dup ? "repeated registrations" : "registrations", 1);
}
static void set(const char *s) { char *b = vh_arg(s, strlen(s) + 1); vh_op("%s set \"%s\"", K(), s); if (kind == DBG) dbg_set(b); else flg_set(b); vh_unarg(b); vh_count("commands by name", 1); }
/* refusals, in a child */
static int what; static unsigned long cflag; static const char *cname;
static void child(void *a)
{
	(void)a;
	if (what == 0) { if (kind == DBG) dbg_set(cname); else flg_set(cname); }
	else if (what == 1) { if (kind == DBG) dbg_register(cflag, cname); else flg_register(cflag, cname); }
	else _dbg_register(cflag, cname);
	printf("accepted\n"); fflush(stdout);
}
static void refused(int w, unsigned long f, const char *name, const char *why)
{
	vh_result r; unsigned i;
	what = w; cflag = f; cname = name; vh_op("%s refuse %d 0x%lx \"%s\" (%s)", K(), w, f, name, why);
	vh_child(&r, child, NULL);
	VH_CHECK(!vh_is_sanitizer(&r), "refusal-memory-error", "%s", r.err);
	VH_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1 && !strstr(r.out, "accepted"), "not-refused", "%s: %s (\"%s\", 0x%lx) ends with status 0x%x, output \"%s\", diagnosis \"%s\"", K(), why, name, f, r.status, r.out, r.err);
	VH_CHECK(r.errlen > 0, "no-diagnosis", "%s: %s (\"%s\") is refused without a diagnosis", K(), why, name);
	if (w == 0 && nR) {
		for (i = 0; i < nR; i++) { char *p = r.err; size_t n = strlen(R[i].name); int found = 0; while ((p = strstr(p, R[i].name))) { if ((p == r.err || p[-1] == ' ' || p[-1] == '\n') && (p[n] == '\n' || p[n] == ' ')) { found = 1; break; } p++; } VH_CHECK(found, "listing-incomplete", "%s: the diagnosis for \"%s\" does not list \"%s\": %s", K(), name, R[i].name, r.err); }
		VH_CHECK(!*name || strstr(r.err, name), "diagnosis-unnamed", "%s: the diagnosis does not name \"%s\": %s", K(), name, r.err);
	}
	vh_result_free(&r); vh_count("refusals", 1);
}
static void listing(void)
{
	char *t = NULL, *p, *e; size_t tn; FILE *f; unsigned i, lines = 0; char seen[200] = {0};
	f = open_memstream(&t, &tn); if (kind == DBG) dbg_list(f); else flg_list(f); fclose(f);
	for (p = t; *p; p = e) {
		char nm[100]; size_t n; reg *r; int builtin = 0; char *q;
		e = strchr(p, '\n'); VH_CHECK(e, "listing-line", "unterminated line in the listing \"%s\"", t);
		*e++ = 0; while (*p == ' ' || *p == '\t') p++;
		n = strcspn(p, " \t"); VH_CHECK(n < sizeof nm, "listing-line", "line \"%s\"", p); memcpy(nm, p, n); nm[n] = 0; q = p + n;
		if (strstr(q, "builtin")) builtin = 1;
		r = by_name(nm); VH_CHECK(r, "listing-foreign", "%s: the listing has \"%s\", which is not registered", K(), nm);
		i = (unsigned)(r - R); VH_CHECK(!seen[i], "listing-twice", "%s: the listing has \"%s\" twice", K(), nm); seen[i] = 1; lines++;
		VH_CHECK(builtin == r->builtin, "listing-builtin", "%s: \"%s\" (0x%lx) is listed as \"%s\"", K(), nm, r->flag, p);
	}
	VH_CHECK(lines == nR, "listing-incomplete", "%s: the listing has %u of %u names", K(), lines, nR);
	free(t); vh_count(nR ? "listings" : "listings with nothing registered", 1);
}
static void clear(void)
{
	unsigned i; memset(on, 0, sizeof on);
	for (i = 0; i < nR; i++) { if (ndead < 4000) dead[ndead++] = R[i].name; }
	nR = 0;
}
static void builtins(void)
{
	static const struct { unsigned long f; const char *n; } B[] = { { MAA_MEMORY, ".memory" }, { MAA_TIME, ".time" }, { MAA_PR, ".pr" }, { MAA_SL, ".sl" }, { MAA_SRC, ".src" }, { MAA_PARSE, ".parse" } }; unsigned i;
	for (i = 0; i < 6; i++) { R[nR].name = strdup(B[i].n); R[nR].flag = B[i].f; R[nR++].builtin = 1; }
}
void vh_case(uint64_t idx)
{
	unsigned k, ops = 40 + (unsigned)vh_below(200), off = 0, destroyed = 0, used = 0; int g, b; uint64_t h = 0; char buf[128];
	kind = vh_chance(50) ? DBG : FLG; ndead = 0; nR = 0; memset(on, 0, sizeof on); inited = 0;
	compare("start");
	refused(0, 0, "nothing", "no name registered");
	if (vh_chance(40)) { maa_init(vh_chance(50) ? "/a/b/prog" : "p"); inited = 1; if (kind == DBG) builtins(); }
	for (k = 0; k < ops; k++) {
		int w = (int)vh_below(100); reg *r = nR ? &R[vh_below(nR)] : NULL; const char *what_ = "";
		h = vh_mix(h, w);
		g = (int)vh_below(4); b = (int)vh_below(30);
		if (w < 18 || !r) {
			unsigned long f = flag_of(g, b);
			if (by_flag(f)) { if (vh_chance(30)) { char *s = strdup(by_flag(f)->name); do_register(f, s, 1); if (ndead < 4000) dead[ndead++] = s; } }
			else if (r && group(f) != 3 && group(r->flag) != 3 && nR < 150 && vh_chance(25)) { /* a name in use for another flag: ignored, and the flag is still to be had */
				char *s = strdup(r->name); do_register(f, s, 2); if (ndead < 4000) dead[ndead++] = s; what_ = "a name registered for two flags"; compare(what_);
				if (vh_chance(60)) do_register(f, new_name(), 0);
			}
			else if (nR < 150) { signed char o = on[g][b]; do_register(f, new_name(), 0); on[g][b] = o; }
			what_ = "a registration";
		}
		else if (w < 36) { int p = vh_chance(50); snprintf(buf, sizeof buf, "%s%s", p ? "+" : "", r->name); if (p && by_name(buf)) continue; set(buf); on[group(r->flag)][bitno(r->flag)] = 1; what_ = buf; used |= 1u << group(r->flag); }
		else if (w < 52) { snprintf(buf, sizeof buf, "-%s", r->name); if (by_name(buf)) continue; set(buf); on[group(r->flag)][bitno(r->flag)] = 0; what_ = buf; off++; }
		else if (w < 57) { set("none"); memset(on, 0, sizeof on); what_ = "none"; }
		else if (w < 62) { unsigned i; set("all"); memset(on, -1, sizeof on); for (i = 0; i < nR; i++) on[group(R[i].flag)][bitno(R[i].flag)] = 1; what_ = "all"; }
		else if (w < 72) { unsigned long f = vh_chance(60) ? r->flag : flag_of(g, b); if (kind == DBG) { int s = vh_chance(50); if (s) dbg_set_flag(f); else dbg_unset_flag(f); vh_op("dbg %s flag 0x%lx", s ? "set" : "unset", f); on[group(f)][bitno(f)] = (signed char)s; what_ = "a command by value"; vh_count("commands by value", 1); } }
		else if (w < 80) listing();
		else if (w < 85 && kind == FLG) { const char *n = flg_name(r->flag); VH_CHECK(!strcmp(n, r->name), "name-wrong", "flg_name(0x%lx) is \"%s\", should be \"%s\"", r->flag, n, r->name); vh_count("names from values", 1); }
		else if (w < 88) {
			int q = (int)vh_below(9); char *s;
			if (q == 0) { s = new_name(); refused(0, 0, s, "unknown name"); free(s); }
			else if (q == 1) { s = new_name(); snprintf(buf, sizeof buf, "%c%s", vh_chance(50) ? '+' : '-', s); free(s); if (!by_name(buf)) refused(0, 0, buf, "unknown name with sign"); }
			else if (q == 2) { snprintf(buf, sizeof buf, "%s", r->name); buf[strlen(buf) - 1] = 0; if (!by_name(buf) && !((buf[0] == '-' || buf[0] == '+') && by_name(buf + 1)) && strcmp(buf, "all") && strcmp(buf, "none")) refused(0, 0, buf, "prefix of a name"); }
			else if (q >= 7) { /* a registered name with something added or changed */
				size_t l; static const char *const pre[] = { "-+", "+-", "++", "--", " ", "+ ", "- ", "=", "!", "-", "\t" }, *const post[] = { " ", "+", "-", "=", "\n", ",", "=1" };
				l = (size_t)snprintf(buf, sizeof buf, "%s", r->name);
				switch (vh_below(6)) {
				case 0: case 1: snprintf(buf, sizeof buf, "%s%s", pre[vh_below(10)], r->name); break;
				case 2: snprintf(buf, sizeof buf, "%s%s", r->name, post[vh_below(7)]); break;
				case 3: { size_t i = vh_below(l); if (buf[i] >= 'a' && buf[i] <= 'z') buf[i] -= 32; else if (buf[i] >= 'A' && buf[i] <= 'Z') buf[i] += 32; else buf[i] = 'q'; break; }
				case 4: snprintf(buf, sizeof buf, "%s,%s", r->name, R[vh_below(nR)].name); break;
				default: strcpy(buf, (const char *[]){ "", "+", "-", "++", "--", "0", "1", "%s", "-%n" }[vh_below(9)]); break;
				}
				if (!by_name(buf) && !((buf[0] == '-' || buf[0] == '+') && (by_name(buf + 1) || !strcmp(buf + 1, "all") || !strcmp(buf + 1, "none"))) && strcmp(buf, "all") && strcmp(buf, "none")) { refused(0, 0, buf, "a name that resembles a registered one"); vh_count("names that resemble others refused", 1); }
			}
			else if (q == 3) { s = new_name(); refused(1, 0, s, "flag without bits"); refused(1, flag_of((int)vh_below(4), 0) & ~1UL, s, "flag with high bits only"); free(s); }
			else if (q == 4) { int c = (b + 1 + (int)vh_below(29)) % 30; s = new_name(); refused(1, flag_of(kind == DBG ? (int)vh_below(3) : g, b) | 1UL << c, s, "flag with two bits"); free(s); }
			else if (q == 5) { s = new_name(); refused(kind == DBG && group(r->flag) == 3 ? 2 : 1, r->flag, s, "flag in use"); free(s); }
			else if (kind == DBG) { s = new_name(); refused(1, flag_of(3, b), s, "reserved flag"); free(s); }
			what_ = "a refusal in a child";
		}
		else if (w < 90) {
			char *gone = r->name; unsigned old = nR;
			if (inited && vh_chance(50)) { maa_shutdown(); vh_op("maa_shutdown"); clear(); compare("shut-down"); inited = 0; if (vh_chance(50)) { maa_init("again"); inited = 1; if (kind == DBG) builtins(); } }
			else { if (kind == DBG) dbg_destroy(); else flg_destroy(); vh_op("%s destroy", K()); clear(); compare("destroy"); if (kind == DBG) inited = 0; }
			destroyed++; what_ = "shut-down"; if (!by_name(gone)) refused(0, 0, gone, "name from before the shut-down"); (void)old; vh_count("shut-downs", 1);
		}
		if (*what_ || vh_chance(20)) compare(what_);
	}
	listing(); compare("the end");
	vh_digest(h); vh_digest(nR);
	if (off && used == 15) vh_nontrivial();
	if (idx < 2) vh_sample("%s, %u operations, %u names at the end, %u shut-downs", K(), ops, nR, destroyed);
	if (kind == DBG) dbg_destroy(); else flg_destroy();
	if (inited) maa_shutdown();
	clear(); while (ndead) free(dead[--ndead]);
}
