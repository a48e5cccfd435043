/* C06, C07, C08: index lookup and housekeeping */
#include <errno.h>
#include "hx.h"
#include <sys/endian.h>
#define MAXE 8
struct ent { uint8_t r[32]; int place; };	/* 0 appendix, 1 housekeeping snapshot, 2 sorted */
static struct ent E[MAXE]; static int nE;
static const char *const fn[] = { "/s/index.appendix", "/s/index.housekeep", "/s/index.sorted" };
static uint8_t nib(const uint8_t *r, int i) { return (i & 1) ? r[i / 2] & 15 : r[i / 2] >> 4; }

/* visited entries */
struct vis { uint8_t r[32]; };
static struct vis V[4 * MAXE]; static int nV, stopat, stopval;
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int visit(void *priv, const char *key, uint32_t flag, uint32_t silo, int64_t off, const char *cont)
{
	sym_assert(priv == &nV, "C06", "visitor called with another argument");
	sym_need(nV < 4 * MAXE, "C06", "too many entries visited");
	uint8_t *r = V[nV++].r;
	sym_assert(strlen(key) == 24 && strlen(cont) == 8, "C06", "key or continuation prefix of wrong length");
	for (int i = 0; i < 12; i++) r[i] = (uint8_t)(hexv(key[2 * i]) << 4 | hexv(key[2 * i + 1]));
	be32enc(r + 12, flag); be32enc(r + 16, silo); be64enc(r + 20, (uint64_t)off);
	for (int i = 0; i < 4; i++) r[28 + i] = (uint8_t)(hexv(cont[2 * i]) << 4 | hexv(cont[2 * i + 1]));
	return nV - 1 == stopat ? stopval : 0;
}
static void put(int place, const uint8_t *p, size_t n)
{
	size_t m; uint8_t *d = env_data(fn[place], &m), *q = malloc(m + n + 1);
	if (m) memcpy(q, d, m); memcpy(q + m, p, n);
	env_mkfile(fn[place], q, m + n); free(q);
}
/* an entry with `sw` symbolic leading key bytes */
static void mkent(struct ent *e, int i, int sw, int rest)
{
	for (int k = 0; k < 32; k++) e->r[k] = (uint8_t)(0x11 * k + 0x35); e->r[20] = 9;
	sym_bytes(e->r, (size_t)sw);
	if (rest) { e->r[11] = (uint8_t)sym_u(0, 255); sym_bytes(e->r + 12, 4); e->r[18] = (uint8_t)sym_u(0, 255); e->r[20] = (uint8_t)sym_u(0, 127); e->r[27] = (uint8_t)sym_u(0, 255); e->r[28] = (uint8_t)sym_u(0, 255); e->r[31] = (uint8_t)sym_u(0, 255); }
	else e->r[16] = (uint8_t)i;
}
static struct aardwarc *setup(void) { hx_init(); return hx_open(128, 0, 4096); }
/* make entries E[0..n) with places, the sorted ones via housekeeping */
static void populate(struct aardwarc *aa, int n, int sw, int rest)
{
	nE = n;
	for (int i = 0; i < n; i++) { E[i].place = (int)sym_pick(3); mkent(&E[i], i, sw, rest); }
	int any = 0;
	for (int i = 0; i < n; i++) if (E[i].place == 2) { put(0, E[i].r, 32); any = 1; }
	if (any) IDX_Resort(aa);
	for (int i = 0; i < n; i++) if (E[i].place < 2) put(E[i].place, E[i].r, 32);
}
static int same(const uint8_t *a, const uint8_t *b) { return sym_memeq(a, b, 32); }
static int matches_(const uint8_t *r, const char *q, int n)
{
	int ok = 1; for (int i = 0; i < n && i < 24; i++) ok &= nib(r, i) == (uint8_t)hexv(q[i]);
	return ok;
}
/* the visited set is exactly the matching entries */
static void check_visited(const char *q, int n, const char *props)
{
	for (int v = 0; v < nV; v++) {
		int ok = 0; for (int i = 0; i < nE; i++) ok |= same(V[v].r, E[i].r);
		sym_assert(ok, props, "lookup delivers an entry that is not in the index");
		sym_assert(matches_(V[v].r, q, n), props, "lookup delivers an entry that does not match");
	}
	for (int i = 0; i < nE; i++) {
		int ok = !matches_(E[i].r, q, n); for (int v = 0; v < nV; v++) ok |= same(V[v].r, E[i].r);
		sym_assert(ok, props, "lookup misses an entry");
	}
	if (nV > 1) sym_reach("many"); else if (nV) sym_reach("one"); else sym_reach("none");
}
static int lookup(struct aardwarc *aa, const char *q) { nV = 0; return IDX_Iter(aa, q, visit, &nV); }
/* a query: qs symbolic digits, then digits of the constant part */
static int mkquery(char *q, int sw)
{
	static const int lens[] = { 1, 2, 3, 4, 7, 23, 24, 25, 32, 64 };
	int l = lens[sym_pick(10)], w = 2 * sw;
	for (int i = 0; i < l; i++) { unsigned k = (unsigned)i / 2, c = 0x11 * k + 0x35; q[i] = "0123456789abcdef"[(i & 1) ? c & 15 : (c & 0xff) >> 4]; }
	if (w > l) w = l;
	static const char *const set = "0123456789abcdefABCDEF";
	int cs = (int)sym_pick(2);
	for (int i = 0; i < w; i++) q[i] = cs ? sym_oneof("0123456789ABCDEF", 16) : sym_oneof("0123456789abcdef", 16);
	(void)set;
	q[l] = 0;
	return l;
}
void h_idx_lookup(void)
{
	struct aardwarc *aa = setup(); char q[80]; int n = (int)sym_arg("n", 2), sw = (int)sym_arg("sw", 1), l = 0;
	populate(aa, n, sw, 0);
	stopat = -1;
	int whole = sym_bool();
	if (!whole) l = mkquery(q, sw);
	int r = lookup(aa, whole ? NULL : q);
	sym_assert(r <= 0, "C06", "lookup that was not stopped returns a visitor's value");
	check_visited(q, l, "C06");
	sym_assert(env_nopenfds() == 0, "C06", "lookup leaves files open");
}
/* every field comes back */
void h_idx_fields(void)
{
	struct aardwarc *aa = setup();
	populate(aa, (int)sym_arg("n", 1), 0, 1);
	stopat = -1;
	int how = (int)sym_pick(3);
	static const char *const qs[] = { "35", "35465768798a9bacbd", "35465768798A9BACBDcEdf" };
	int r = lookup(aa, qs[how]);
	sym_assert(r <= 0, "C06", "lookup that was not stopped returns a visitor's value");
	check_visited(qs[how], (int)strlen(qs[how]), "C06");
}
/* stopping */
void h_idx_stop(void)
{
	struct aardwarc *aa = setup(); int n = (int)sym_arg("n", 3);
	nE = n; 
	for (int i = 0; i < n; i++) { E[i].place = (int)sym_pick(3); mkent(&E[i], i, 0, 0); }
	int any = 0;
	for (int i = 0; i < n; i++) if (E[i].place == 2) { put(0, E[i].r, 32); any = 1; }
	if (any) IDX_Resort(aa);
	for (int i = 0; i < n; i++) if (E[i].place < 2) put(E[i].place, E[i].r, 32);
	stopat = (int)sym_pick(n + 1); stopval = sym_bool() ? (int)sym_u(1, 0x7fffffff) : -(int)sym_u(1, 0x7fffffff);
	int r = lookup(aa, sym_bool() ? "35" : NULL);
	if (stopat < n) { sym_assert(r == stopval, "C06", "the visitor's value is not returned"); sym_assert(nV == stopat + 1, "C06", "visitor called again after it said stop"); sym_reach("stopped"); }
	else { sym_assert(r <= 0, "C06", "lookup that was not stopped returns a visitor's value"); sym_assert(nV == n, "C06", "not all entries visited"); sym_reach("all"); }
	sym_assert(env_nopenfds() == 0, "C06", "lookup leaves files open");
}
/* insertion encodes what lookup decodes */
void h_idx_insert(void)
{
	struct aardwarc *aa = setup(); char key[70], cont[12]; size_t n0 = sym_pick(3) * 32, n; uint8_t pre[64], want[32];
	sym_bytes(pre, n0); if (n0 || sym_bool()) env_mkfile(fn[0], pre, n0);
	int kl = 16 + 8 * (int)sym_pick(7);
	for (int i = 0; i < kl; i++) key[i] = "0123456789abcdef"[i & 15]; key[kl] = 0;
	int at = (int)sym_pick(kl > 24 ? 6 : kl / 4) * 4;
	for (int i = 0; i < 3; i++) key[at + i] = sym_oneof("0123456789abcdefABCDEF", 22);
	int hascont = sym_bool(); static const int cls[] = { 8, 32 };
	int cl = cls[sym_pick(2)]; char cb[40]; (void)cont;
	for (int i = 0; i < cl; i++) cb[i] = "fedcba9876543210"[i & 15]; cb[cl] = 0;
	int ca = (int)sym_pick(4) * 2; cb[ca] = sym_oneof("0123456789abcdefABCDEF", 22); cb[ca + 1] = sym_oneof("0123456789abcdefABCDEF", 22);
	uint32_t fl = (uint32_t)sym_u(0, 0xffffffff), si = (uint32_t)sym_u(0, 0xffffffff); uint64_t off = sym_u(0, 0x7fffffffffffffffULL);
	IDX_Insert(aa, key, fl, si, off, hascont ? cb : NULL);
	uint8_t *d = env_data(fn[0], &n);
	memset(want, 0, 32);
	for (int i = 0; i < 24 && i < kl; i++) want[i / 2] |= (uint8_t)(hexv(key[i]) << ((i & 1) ? 0 : 4));
	be32enc(want + 12, fl); be32enc(want + 16, si); be64enc(want + 20, off);
	if (hascont) for (int i = 0; i < 8; i++) want[28 + i / 2] |= (uint8_t)(hexv(cb[i]) << ((i & 1) ? 0 : 4));
	sym_assert(n == n0 + 32, "C06", "insertion does not append one entry");
	sym_assert(sym_memeq(d, pre, n0), "C06", "insertion changes earlier entries");
	sym_assert(sym_memeq(d + n0, want, 32), "C06", "entry written wrongly");
	sym_assert(env_nopenfds() == 0, "C06", "insertion leaves files open");
}
/* ---- housekeeping ---- */
static int less(const uint8_t *a, const uint8_t *b)	/* a < b, as one formula */
{
	int lt = 0, eq = 1;
	for (int i = 0; i < 32; i++) { lt |= eq & (a[i] < b[i]); eq &= a[i] == b[i]; }
	return lt;
}
static void check_sorted(const char *props)
{
	size_t n; uint8_t *d = env_data(fn[2], &n);
	if (nE == 0) { sym_assert(d == NULL || n % 32 == 0, props, "sorted index malformed"); return; }
	sym_need(d != NULL && n > 8, props, "no sorted index after housekeeping");
	sym_need(d[0] == 0x41 && d[1] == 0x61 && d[2] >= 2 && d[2] < 30, props, "sorted index without its header");
	size_t h = (size_t)8 << d[2];
	sym_need(n >= h && (n - h) % 32 == 0, props, "sorted index is not a whole number of entries");
	size_t m = (n - h) / 32; d += h;
	for (size_t k = 0; k < m; k++) {
		int ok = 0; for (int i = 0; i < nE; i++) ok |= same(d + 32 * k, E[i].r);
		sym_assert(ok, props, "housekeeping invents an entry");
		if (k) sym_assert(!less(d + 32 * k, d + 32 * (k - 1)), props, "sorted index not in ascending order");
	}
	for (int i = 0; i < nE; i++) { int ok = 0; for (size_t k = 0; k < m; k++) ok |= same(d + 32 * k, E[i].r); sym_assert(ok, props, "housekeeping loses an entry"); }
}
static void after_good_run(const char *props)
{
	sym_assert(!env_exists(fn[0]), props, "appendix remains after housekeeping");
	sym_assert(!env_exists(fn[1]), props, "snapshot remains after housekeeping");
	sym_assert(!env_exists("/s/index.hold"), props, "hold file remains after housekeeping");
	for (int i = 0; i < env_nfiles(); i++) if (env_fname(i) && !strncmp(env_fname(i), "/s/index.tmp", 12)) sym_fail(props, "temporary file remains after housekeeping");
	check_sorted(props);
	sym_assert(env_nopenfds() == 0, props, "housekeeping leaves files open");
}
/* entries with one symbolic key byte and one symbolic flag byte, so that duplicates and same-key entries occur */
static void mkent2(struct ent *e, int i) { for (int k = 0; k < 32; k++) e->r[k] = (uint8_t)(0x11 * k + 0x35); e->r[20] = 9; (void)i; e->r[0] = (uint8_t)sym_u(0, 255); e->r[31] = (uint8_t)sym_u(0, 1); }
void h_idx_housekeep(void)
{
	struct aardwarc *aa = setup(); int n = (int)sym_arg("n", 3); char q[3] = "";
	static const unsigned ss[] = { 32, 64, 96, 4096 };
	nE = n;
	unsigned np = 3; int hk = sym_bool();	/* snapshot left over? */
	if (!hk) np = 2;
	for (int i = 0; i < n; i++) { mkent2(&E[i], i); int p = (int)sym_pick(np); E[i].place = p == 0 ? 0 : p == 1 ? 2 : 1; }
	int any = 0; for (int i = 0; i < n; i++) if (E[i].place == 2) { put(0, E[i].r, 32); any = 1; }
	aa->index_sort_size = ss[sym_pick(4)];
	if (any) IDX_Resort(aa);
	for (int i = 0; i < n; i++) if (E[i].place < 2) put(E[i].place, E[i].r, 32);
	if (hk && !env_exists(fn[1])) env_mkfile(fn[1], "", 0);
	if (!env_exists(fn[0]) && sym_bool()) env_mkfile(fn[0], "", 0);
	IDX_Resort(aa);
	after_good_run("C07");
	/* lookup of one digit or two, symbolic */
	stopat = -1; q[0] = sym_arg("look", 1) ? "0123456789abcdef"[sym_pick(16)] : '0'; if (sym_arg("look", 1) > 1 && sym_bool()) q[1] = sym_oneof("0123456789abcdef", 16);
	if (sym_arg("look", 1)) { lookup(aa, q); check_visited(q, (int)strlen(q), "C06,C07"); }
	/* again: no change */
	size_t m, m2; uint8_t *d = env_data(fn[2], &m), *s = malloc(m + 1); if (m) memcpy(s, d, m);
	IDX_Resort(aa);
	d = env_data(fn[2], &m2);
	sym_assert(m == m2 && sym_memeq(s, d, m), "C07", "repeated housekeeping changes the index");
	free(s);
	after_good_run("C07");
}
/* interruptions: concrete distinct keys, symbolic point */
static void place3(struct aardwarc *aa, int n, unsigned sortsz)
{
	nE = n;
	for (int i = 0; i < n; i++) { mkent(&E[i], i, 0, 0); E[i].r[0] = (uint8_t)((i * 0x5b + 0x20) & 0xff); E[i].place = (int)sym_pick(3); }
	int any = 0; for (int i = 0; i < n; i++) if (E[i].place == 2) { put(0, E[i].r, 32); any = 1; }
	if (any) IDX_Resort(aa);
	aa->index_sort_size = sortsz;
	for (int i = 0; i < n; i++) if (E[i].place < 2) put(E[i].place, E[i].r, 32);
}
static void resort(void *p) { IDX_Resort(p); }
static void dolookup(void *p) { lookup(p, NULL); }
static void all_found(struct aardwarc *aa, const char *props, const char *what)
{
	stopat = -1;
	int c = sym_catch(dolookup, aa);
	sym_assert(c == 0, props, what);
	check_visited(NULL, 0, props);
	for (int i = 0; i < nE; i++) {	/* and by its own key */
		char k[25]; for (int j = 0; j < 24; j++) k[j] = "0123456789abcdef"[nib(E[i].r, j)]; k[24] = 0;
		nV = 0; IDX_Iter(aa, k, visit, &nV); check_visited(k, 24, props);
	}
}
void h_idx_crash(void)
{
	struct aardwarc *aa = setup(); int n = (int)sym_arg("n", 3);
	static const unsigned ss[] = { 32, 64, 4096 };
	place3(aa, n, ss[sym_pick(3)]);
	env_crash_at = sym_range(0, (uint64_t)sym_arg("muts", 24)); env_crash_armed = 1; env_mut = 0;
	env_tear = (int)sym_pick(3) * 20; env_atomic = 1;
	int c = sym_catch(resort, aa);
	env_crash_armed = 0;
	sym_assert(c == 0 || c == THROW_CRASH, "C08", "housekeeping aborts");
	if (c) { env_reset_fds(); sym_reach("crashed"); } else sym_reach("completed");
	all_found(aa, "C08", "lookup aborts after a killed housekeeping");
	/* recovery: possibly a new entry meanwhile */
	if (sym_bool()) { mkent(&E[nE], nE, 0, 0); E[nE].r[0] = 0x99; put(0, E[nE].r, 32); nE++; }
	if (c) { IDX_Resort(aa); all_found(aa, "C08", "lookup aborts while a stale hold exists"); env_remove("/s/index.hold"); }
	env_pid++;
	IDX_Resort(aa);
	for (int i = 0; i < env_nfiles(); i++) if (env_fname(i) && !strncmp(env_fname(i), "/s/index.tmp", 12)) { char b[40]; snprintf(b, sizeof b, "%s", env_fname(i)); env_remove(b); }
	if (!env_exists(fn[0]) && !env_exists(fn[1])) ; else sym_fail("C08", "later housekeeping does not complete");
	check_sorted("C08"); sym_assert(!env_exists("/s/index.hold"), "C08", "hold remains");
	all_found(aa, "C08", "lookup aborts after recovery");
}
void h_idx_fault(void)
{
	struct aardwarc *aa = setup(); int n = (int)sym_arg("n", 4);
	static const unsigned ss[] = { 32, 64, 96, 4096 };
	place3(aa, n, ss[sym_pick(4)]);
	int k = (int)sym_pick(2);
	if (k == 0) { env_fail_open_at = (int)sym_range(1, 12); env_nopen = 0; }
	else { env_short_read_at = (int)sym_range(0, 9); env_nread = 0; }
	int c = sym_catch(resort, aa);
	if (k == 0 && env_nopen > env_fail_open_at) sym_reach("open failed"); else if (k == 1 && env_nread > env_short_read_at) sym_reach("short read"); else sym_reach("no fault");
	env_fail_open_at = env_short_read_at = -1;
	env_reset_fds();
	if (k == 1) sym_assert(c == 0, "C08", "short read makes housekeeping abort");
	all_found(aa, "C08", "lookup aborts after housekeeping with a fault");
	env_remove("/s/index.hold");
	IDX_Resort(aa);
	sym_assert(!env_exists(fn[0]) && !env_exists(fn[1]), "C08", "later housekeeping does not complete");
	check_sorted("C08");
	all_found(aa, "C08", "lookup aborts after recovery");
}
/* other processes acting in the middle of housekeeping */
static struct aardwarc *gaa; static int hookact;
static void hook(void)
{
	sym_reach("hook");
	switch (hookact) {
	case 0: {	/* a store inserts */
		mkent(&E[nE], nE, 0, 0); E[nE].r[0] = 0x99; char k[25]; for (int j = 0; j < 24; j++) k[j] = "0123456789abcdef"[nib(E[nE].r, j)]; k[24] = 0;
		char co[9]; for (int j = 0; j < 8; j++) co[j] = "0123456789abcdef"[nib(E[nE].r + 28, j)]; co[8] = 0;
		IDX_Insert(gaa, k, be32dec(E[nE].r + 12), be32dec(E[nE].r + 16), be64dec(E[nE].r + 20), co); nE++; break; }
	case 1: IDX_Resort(gaa); break;	/* a second housekeeping */
	case 2: all_found(gaa, "C08,C16", "lookup aborts while housekeeping runs"); break;
	}
}
void h_idx_concurrent(void)
{
	struct aardwarc *aa = setup(); int n = (int)sym_arg("n", 3);
	static const unsigned ss[] = { 32, 4096 };
	place3(aa, n, ss[sym_pick(2)]);
	gaa = aa; hookact = (int)sym_pick(3); env_hook_at = sym_range(0, (uint64_t)sym_arg("ops", 70)); env_hook = hook; env_ops = 0; env_hook_armed = 1;
	IDX_Resort(aa);
	env_hook_armed = 0;
	if (!env_hook) { all_found(aa, "C08,C16", "lookup aborts after housekeeping"); }
	env_hook = NULL;
	IDX_Resort(aa);
	after_good_run("C08,C16");
	all_found(aa, "C08,C16", "lookup aborts after housekeeping");
}
/* housekeeping in the middle of an insertion or a lookup */
static void hook2(void) { sym_reach("hook"); IDX_Resort(gaa); }
void h_idx_insert_race(void)
{
	struct aardwarc *aa = setup(); int n = (int)sym_arg("n", 2);
	place3(aa, n, 4096); gaa = aa;
	env_hook_at = sym_range(0, (uint64_t)sym_arg("ops", 20)); env_hook = hook2; env_ops = 0;
	hookact = 0;
	void (*h)(void) = env_hook;
	env_hook = NULL; env_hook = h; env_hook_armed = 1;
	mkent(&E[nE], nE, 0, 0); E[nE].r[0] = 0x99; char k[25]; for (int j = 0; j < 24; j++) k[j] = "0123456789abcdef"[nib(E[nE].r, j)]; k[24] = 0;
	char co[9]; for (int j = 0; j < 8; j++) co[j] = "0123456789abcdef"[nib(E[nE].r + 28, j)]; co[8] = 0;
	IDX_Insert(aa, k, be32dec(E[nE].r + 12), be32dec(E[nE].r + 16), be64dec(E[nE].r + 20), co); nE++;
	env_hook_armed = 0; env_hook = NULL;
	all_found(aa, "C08,C16", "lookup aborts after insertion");
	IDX_Resort(aa);
	after_good_run("C08,C16");
}
void h_idx_lookup_race(void)
{
	struct aardwarc *aa = setup(); int n = (int)sym_arg("n", 3);
	place3(aa, n, 4096); gaa = aa;
	env_hook_at = sym_range(0, (uint64_t)sym_arg("ops", 30)); env_hook = hook2; env_ops = 0; env_hook_armed = 1;
	all_found(aa, "C08,C16", "lookup aborts while housekeeping runs");
	env_hook_armed = 0; env_hook = NULL;
}
/* an index with many buckets: record i has the i'th smallest key */
static uint64_t bigkey(uint64_t i, uint64_t n, int shape)
{
	uint64_t f = (i << 40) / n, z = (i * 2654435761u) & 0xffff;	/* 40-bit fraction */
	if (shape == 1) f = f < (1ULL << 39) ? f / 64 : f; 	/* half of them within 1/128, then a gap */
	if (shape == 2) f = (1ULL << 39) + f / 4;		/* nothing in the lower half and the last quarter */
	return (f << 24 | 0x800000) + z;
}
static uint64_t bigN, bignext; static int bigshape, bigbad;
static void bigrec(uint8_t *r, uint64_t i) { be64enc(r, bigkey(i, bigN, bigshape)); be32enc(r + 8, 0x01020304); be32enc(r + 12, (uint32_t)i); be32enc(r + 16, (uint32_t)i ^ 5); be64enc(r + 20, i * 3); be32enc(r + 28, (uint32_t)i); }
static int bigvisit(void *priv, const char *key, uint32_t flag, uint32_t silo, int64_t off, const char *cont)
{
	(void)priv; (void)key; (void)cont;
	if (flag != bignext || silo != (uint32_t)(bignext ^ 5) || off != (int64_t)bignext * 3) bigbad = 1;
	bignext++; return 0;
}
void h_idx_big(void)
{
	static const uint64_t sizes[] = { 16384, 16385, 33000, 70000 };
	struct aardwarc *aa = setup(); char q[40]; uint64_t n = sizes[sym_range((uint64_t)sym_arg("from", 1), (uint64_t)sym_arg("to", 2))];
	bigN = n; bigshape = (int)sym_pick((uint64_t)sym_arg("shapes", 3)); int dup = bigshape == 1 || sym_arg("dups", 0) ? sym_bool() : 0;
	uint8_t *d = malloc((n + n / 2) * 32); size_t m = 0;
	for (uint64_t i = 0; i < n; i++, m += 32) bigrec(d + m, (i * 7919) % n);
	aa->index_sort_size = (size_t)32 * 20000;
	env_mkfile(fn[0], d, m); IDX_Resort(aa);
	if (dup) { for (m = 0; m < n / 2 * 32; m += 32) bigrec(d + m, m / 16); env_mkfile(fn[0], d, m); IDX_Resort(aa); }
	uint8_t *s = env_data(fn[2], &m), e[32];
	sym_need(m > 32 && m == n * 32 + ((size_t)8 << s[2]), "C07", "the sorted index does not hold every entry once");
	s += m - n * 32;
	for (uint64_t i = 0; i < n; i++) { bigrec(e, i); sym_need(!memcmp(e, s + 32 * i, 32), "C07", "the sorted index is not in ascending order"); }
	/* lookups: of a record, of a digit sequence it begins with, of what is just before or behind it */
	uint64_t k = sym_range(0, (uint64_t)sym_arg("probes", 12)), i = k * (n - 1) / (uint64_t)sym_arg("probes", 12), a, b; static const int dl[] = { 1, 2, 4, 16, 24 };
	int l = dl[sym_pick(5)], how = l == 1 ? 0 : (int)sym_pick(3); uint64_t key = bigkey(i, n, bigshape);
	if (how == 1) key++; if (how == 2) key--;
	snprintf(q, sizeof q, "%016llx01020304", (unsigned long long)key); q[l] = 0;
	int sh = l >= 16 ? 0 : 64 - 4 * l;
	for (a = i; a > 0 && bigkey(a - 1, n, bigshape) >> sh >= key >> sh; a--) ;
	while (a < n && bigkey(a, n, bigshape) >> sh < key >> sh) a++;
	for (b = a; b < n && bigkey(b, n, bigshape) >> sh == key >> sh; b++) ;
	bignext = a; bigbad = 0;
	int r = IDX_Iter(aa, q, bigvisit, NULL);
	sym_assert(r <= 0 && !bigbad && bignext == b, "C06", "a lookup in a big index does not visit exactly the matching entries");
	if (b == a) sym_reach("none"); else if (b == a + 1) sym_reach("one"); else sym_reach("many"); if (s[0] == 0) sym_reach("?");
}
