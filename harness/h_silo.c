/* C22 C04: names and numbers of silos, the walk over them, the cache of numbers, silos not to be written to */
#include "hx_pop.h"
static struct aardwarc *aa;
static const char *fname(unsigned no, int hold) { struct vsb *v = Silo_Filename(aa, no, hold); return VSB_data(v); }
/* any two different numbers */
void h_silo_names(void)
{
	static const char *bn[] = { "%u", "%08u.warc.gz", "s1lo%u.hold", "%x.gz" };
	arch_base = bn[sym_pick((uint64_t)sym_arg("names", 4))]; arch_init(5000);
	struct vsb *e = VSB_new_auto(); aa = AardWARC_New("/cfg", e); if (aa == NULL) { sym_need(arch_base[1] != 'u' && 0, "C18", "archive with a valid configuration is not opened"); return; }
	unsigned max = (unsigned)sym_arg("max", 1000000);
	unsigned a = (unsigned)sym_u_(32, 0, max), b = (unsigned)sym_u_(32, 0, max);
	int far = sym_bool(); if (far) { a += 0xffffffffu - max; b += 0xffffffffu - max; }
	sym_assume(a < b);
	const char *x = fname(a, 0), *y = fname(b, 0), *h = fname(a, 1), *g = fname(b, 1); size_t lx = strlen(x), ly = strlen(y);
	sym_assert(lx != ly || !sym_memeq(x, y, lx), "C22", "two silo numbers have the same filename");
	sym_assert(strlen(h) == lx + 5 && sym_memeq(h, x, lx) && !strcmp(h + lx, ".hold"), "C22", "hold file of a silo has another name");
	sym_assert((strlen(h) != ly || !sym_memeq(h, y, ly)) && (strlen(g) != lx || !sym_memeq(g, x, lx)), "C22", "hold file of a silo has the name of another silo");
	sym_assert(!strncmp(x, "/s/", 3) && strstr(x, "/../") == NULL, "C22", "silo is not below the silo directory");
	/* numbers sharing a directory are of the same hundred */
	const char *p = strrchr(x, '/'), *q = strrchr(y, '/'); size_t dx = (size_t)(p - x), dy = (size_t)(q - y);
	if (dx == dy) { int same = sym_memeq(x, y, dx); sym_assert(!same | (a / 100 == b / 100), "C22", "directory with more than a hundred silos"); }
	sym_reach("two names");
}
struct seen { unsigned no[16]; int n; int stopat, ret; };
static int seen(void *priv, const void *fn, ssize_t no)
{
	struct seen *s = priv; char b[64]; (void)b;
	sym_assert(s->n < 16 && !(s->n > s->stopat), "C22", "visitor is called again after it stopped the walk");
	sym_assert(!strcmp(fn, fname((unsigned)no, 0)), "C22", "name passed to the visitor is not that of the silo");
	s->no[s->n++] = (unsigned)no;
	return s->n - 1 == s->stopat ? s->ret : 0;
}
static void mk(unsigned no, int dir) { char t[100], *q; strcpy(t, fname(no, 0)); q = strrchr(t, '/'); *q = 0; env_mkdirp(t); *q = '/'; if (dir) env_mkdirp(t); else env_mkfile(t, "x", 1); }
void h_silo_iter(void)
{
	static const unsigned cand[] = { 0, 1, 99, 100, 101, 199, 250, 9999, 10000, 10100, 10199, 20000, 999999, 1000000, 1010000, 4294967295u, 100000000u };
	struct seen s = { { 0 }, 0, 99, 0 }; arch_init(5000); struct vsb *e = VSB_new_auto(); aa = AardWARC_New("/cfg", e); AN(aa);
	unsigned w[8]; int n = (int)sym_arg("n", 3), k = 0, lastc = -1;
	for (int i = 0; i < n; i++) { int c = lastc + 1 + (int)sym_pick((uint64_t)(18 - lastc - 1)); if (c >= 17) break; lastc = c; w[k++] = cand[c]; }
	for (int i = 0; i + 1 < k; i++) for (int j = i + 1; j < k; j++) if (w[j] < w[i]) { unsigned t = w[i]; w[i] = w[j]; w[j] = t; }
	for (int i = 0; i < k; i++) mk(w[i], 0);
	if (sym_bool()) { mk(150, 1); char t[100]; snprintf(t, sizeof t, "%s", fname(77, 1)); env_mkdirp("/s/0"); env_mkfile(t, "h", 1); }	/* not silos */
	s.stopat = (int)sym_pick((uint64_t)(k + 1)); if (s.stopat == k) s.stopat = 99; s.ret = sym_bool() ? -1 : 77;
	int r = Silo_Iter(aa, seen, &s);
	int expect = s.stopat < k ? s.stopat + 1 : k;
	sym_assert(s.n == expect, "C22,C10", "walk does not visit every silo once");
	for (int i = 0; i < s.n && i < expect; i++) sym_assert(s.no[i] == w[i], "C22", "walk visits something else than the existing silos in ascending order");
	sym_assert(r == (s.stopat < k ? s.ret : 0), "C22", "walk does not return the visitor's value");
	if (k > 2) sym_reach("three silos");
}
/* whatever the cache of silo numbers contains */
void h_silo_cache(void)
{
	static uint8_t x[2500]; char id[90], id2[90]; struct snaps s; uint8_t c[8]; int w = (int)sym_pick((uint64_t)sym_arg("lists", 3)), r; size_t n;
	arch_init(2700); env_z_rle = 1; arch_limit = 203; pop_list(w, 0); arch_check("");
	unsigned first = (unsigned)sym_pick((uint64_t)arch_nsilo + 3), space; if (first == (unsigned)arch_nsilo + 2) first = 199;
	switch (sym_pick(4)) { case 0: space = 0; break; case 1: space = first; break; case 2: space = (unsigned)sym_pick((uint64_t)arch_nsilo + 2); break; default: space = 0xffffffff; }
	int kind = (int)sym_pick(4);
	if (kind == 0) env_remove("/s/_.cache"); else { be32enc(c, first); be32enc(c + 4, space); env_mkfile("/s/_.cache", c, kind == 1 ? 8 : kind == 2 ? 5 : 0); }
	n = sym_bool() ? 120 : 2500; pop_fill(x, n, 0, 99, 1);
	for (int i = 0; i < 2; i++) {
		snap_take(&s);
		r = store(x, n, i ? id2 : id);
		sym_assert(r == 0, "C22,C01", "store fails because of the contents of the cache");
		if (r) return;
		sym_assert(snap_grown(&s), "C22,C04", "existing contents of a silo are changed because of the contents of the cache");
		arch_check("");
		r = get(i ? id2 : id); sym_assert(r == 0 && ngot == n && sym_memeq(got, x, n), "C22,C01", "object is not found because of the contents of the cache");
		x[5] ^= 1;
	}
	all_there("C22,C01", "an earlier object is not found because of the contents of the cache");
	r = cli("audit"); int k = 0; const char *o = env_out(&n); for (const char *p = o; (p = strstr(p, "Audit silo ")) != NULL; p++) k++;
	sym_assert(r == 0 && k == arch_nsilo, "C22,C10", "not every silo is visited");
	if (first == 199) sym_reach("far away");
}
/* write-protected silos and silos somebody holds */
void h_silo_protect(void)
{
	static uint8_t x[4200]; char id[90], b[64], h[70]; int w = (int)sym_pick((uint64_t)sym_arg("lists", 4)), r; size_t n, l; struct snaps s;
	arch_init(2700); env_z_rle = 1; pop_list(w, 0); arch_check(""); int ns = arch_nsilo;
	int prot[12] = { 0 }, held[12] = { 0 }; int sp = sym_bool();
	for (int i = 0; i < ns + 1; i++) switch (sym_pick(ns > 4 ? 2 : 3)) {
		case 1: silo_path(b, sizeof b, (unsigned)i); if (sp && i < ns) { env_chmod(b, 0440); prot[i] = 1; } else { strcpy(h, b); strcat(h, ".hold"); env_mkdirp("/s/0"); env_mkfile(h, "somebody", 8); held[i] = 1; } break;
		case 2: silo_path(b, sizeof b, (unsigned)i); strcpy(h, b); strcat(h, ".hold"); env_mkdirp("/s/0"); env_mkfile(h, "somebody", 8); held[i] = 1; break; }
	static const size_t len[] = { 60, 300, 2500 }; n = len[sym_pick(3)]; pop_fill(x, n, 0, 99, 1);
	for (int i = 0, k = 0; i < ns; i++) if (prot[i] && !k++) env_root = sym_bool();
	if (sym_bool()) env_remove("/s/_.cache");
	snap_take(&s);
	r = store(x, n, id);
	sym_assert(r == 0, "C04,C01", "store fails because silos are held or write-protected");
	if (r) return;
	sym_assert(snap_grown(&s), "C04", "store changes existing contents of a silo");
	for (int i = 0; i < ns + 1; i++) {
		silo_path(b, sizeof b, (unsigned)i); strcpy(h, b); strcat(h, ".hold");
		if (held[i]) { uint8_t *d = env_data(h, &l); sym_assert(d && l == 8 && !memcmp(d, "somebody", 8), "C04", "somebody else's hold file is removed or written to"); if (i == ns) sym_assert(!env_exists(b), "C04,C16", "a silo is created that somebody else holds"); env_remove(h); }
		if (held[i] || prot[i]) for (int k = 0; k < s.n; k++) if (!strcmp(s.s[k].name, b)) { (void)env_data(b, &l); sym_assert(l == s.s[k].n, "C04", prot[i] ? "something is appended to a write-protected silo" : "something is appended to a silo somebody else holds"); }
	}
	arch_check("");
	r = get(id); sym_assert(r == 0 && ngot == n && sym_memeq(got, x, n), "C01,C04", "object is not retrievable");
	all_there("C01", "an earlier object is not retrievable");
	int grown = 0; for (int k = 0; k < s.n; k++) if (is_silo(s.s[k].name)) { (void)env_data(s.s[k].name, &l); if (l > s.s[k].n) grown = 1; } sym_reach(grown ? "appended" : "not appended");
}
