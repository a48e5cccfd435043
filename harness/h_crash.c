/* C15 (C01 C13 C03 C04): stores that are killed or meet a failing file operation */
#include "hx_arch.h"
static uint8_t A[200], B[2500], X[4000]; static char idA[90], idB[90], idX[90]; static int haveB;
static void fill(uint8_t *b, size_t n, int seed) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + (i >> 8) + (size_t)seed); }
static int good(const char *id, const uint8_t *b, size_t n)
{
	int r = get(id);
	if (r != 0) return 0;
	sym_assert(ngot == n && sym_memeq(got, b, n), "C15,C01,C13", "get delivers other bytes than were stored");
	return 1;
}
static void earlier(const char *what)
{
	sym_assert(good(idA, A, sizeof A), "C15,C01", what);
	if (haveB) sym_assert(good(idB, B, sizeof B), "C15,C01", what);
}
/* whatever is in a silo is a complete record, unless an append was cut short */
static void walkable(void)
{
	if (env_torn_append) { sym_reach("torn append"); return; }
	arch_read(12); sym_assert(!arch_bad, "C05,C15", arch_why ? arch_why : "?");
}
static void dostore(int kind, size_t n, char *id, int *r)
{
	if (kind == 2) *r = store_meta(X, n, idA, id); else *r = store(X, n, id);
}
/* earlier objects, then the store of X, disturbed; afterwards everything must be fine again */
static void scenario(int faults)
{
	char id2[90], id3[90]; int r, killed; size_t n;
	arch_init((uint64_t)sym_arg("max", 2700)); env_z_rle = 1;
	fill(A, sizeof A, 1); fill(B, sizeof B, 77);
	int kind = (int)sym_pick(4); static const size_t len[] = { 150, 3000, 120, 1600 };
	n = len[kind]; fill(X, n, 130); X[0] = (uint8_t)sym_u(0, 255); X[n - 1] = (uint8_t)sym_u(0, 255);
	if (sym_bool()) { char p[40]; memset(p, 'c', 24); p[24] = 0; for (int i = 0; i < 40; i++) env_sha_set_prefix(i, p); }
	haveB = (int)sym_pick((uint64_t)sym_arg("nb", 2));
	r = store(A, sizeof A, idA); sym_need(r == 0, "C01", "store does not succeed");
	if (haveB) { r = store(B, sizeof B, idB); sym_need(r == 0, "C01", "store does not succeed"); }
	if (sym_arg("hk", 1) && sym_bool()) sym_need(cli("housekeeping") == 0, "C07", "housekeeping fails");
	idX[0] = 0;
	if (!faults) {
		env_crash_at = sym_range((uint64_t)sym_arg("first", 0), (uint64_t)sym_arg("last", 40)); env_crash_armed = 1; env_mut = 0;
		static const int tear[] = { 0, 1, 20, 300 }; env_tear = tear[sym_pick(4)];
		dostore(kind, n, idX, &r); killed = r == CLI_CRASH;
		env_crash_armed = 0; env_tear = 0;
		if (!killed) { sym_assert(r == 0, "C01,C15", "store does not succeed"); sym_reach("completed"); } else sym_reach("killed");
	} else {
		if (sym_bool()) { env_stdin_err = (long)sym_range(0, 4) * (long)n / 4; if (env_stdin_err == (long)n) env_stdin_err = (long)n - 1; }
		else { env_fault_at = sym_range((uint64_t)sym_arg("first", 0), (uint64_t)sym_arg("last", 60)); env_fault_armed = 1; env_nfault = 0; env_fault_half = sym_bool(); }
		dostore(kind, n, idX, &r);
		int hit = env_stdin_err >= 0 || env_fault_what != NULL; env_fault_armed = 0; env_stdin_err = -1;
		if (hit) sym_reach(r == 0 ? "fault survived" : r == CLI_ABORT ? "fault, abort" : "fault, error exit"); else { sym_reach("no fault"); sym_assert(r == 0, "C01,C15", "store does not succeed"); }
	}
	if (r == 0) sym_assert(arch_holds() == 0, "C04,C15", "a store that succeeds leaves a hold file behind");
	if (r == 0) sym_assert(good(idX, X, n), "C15,C01", "an ID that store has printed is not retrievable, or with other bytes");
	env_pid++;
	walkable();
	earlier("an earlier object is not retrievable after a disturbed store");
	if (r != 0) {
		/* the object is there completely or not at all; whatever was left behind can be looked up */
		char d[65], t[200]; env_sha_hex(X, n, d);
		if (kind == 2) { snprintf(t, sizeof t, "<%s%s>\n%s\n", HX_PREFIX, bare(idA), d); env_sha_hex(t, strlen(t), d); }
		d[arch_idbits / 4] = 0;
		int g = get(d);
		sym_assert(g != CLI_ABORT, "C15,C13", "looking up the object of a disturbed store aborts");
		if (g == 0) { sym_assert(ngot == n && sym_memeq(got, X, n), "C15,C11", "get delivers something else after a disturbed store"); sym_reach("there already"); }
		idx_read();
		for (int i = 0; i < nX; i++) {
			char k[65]; int j; for (j = 0; j < 24; j++) k[j] = "0123456789abcdef"[(X_[i][j / 2] >> (j % 2 ? 0 : 4)) & 15];
			for (; j < (int)arch_idbits / 4; j++) k[j] = '0'; k[j] = 0;
			sym_assert(get(k) != CLI_ABORT, "C15,C13", "looking up an ID in the index aborts after a disturbed store");
			k[24] = 0; r = cli("byid", k); sym_assert(r != CLI_ABORT, "C15,C26", "byid aborts after a disturbed store");
		}
	}
	arch_rmholds();
	/* stored again, perhaps in other segments */
	if (r != 0 && kind == 1) switch (sym_pick(3)) { case 1: env_read_max = 333; break; case 2: arch_cfg((uint64_t)sym_arg("max", 2700) + 100); sym_reach("other silo size"); break; }
	dostore(kind, n, id2, &r); env_read_max = 0;
	sym_assert(r == 0, "C15", "storing again after a disturbed store fails");
	if (r == 0) sym_assert(good(id2, X, n), "C15", "object is not retrievable after it was stored again");
	if (idX[0]) sym_assert(!strcmp(idX, id2), "C15,C02", "another ID when stored again");
	earlier("an earlier object is not retrievable after storing again");
	/* a further object */
	X[0] ^= 0x55; dostore(kind, n, id3, &r); 
	sym_assert(r == 0 && good(id3, X, n), "C15", "storing another object fails afterwards"); X[0] ^= 0x55;
	sym_assert(good(id2, X, n), "C15", "object is no longer retrievable after another store");
	r = cli("housekeeping"); sym_assert(r == 0, "C15,C07", "housekeeping fails afterwards");
	sym_assert(good(id2, X, n), "C15", "object is not retrievable after housekeeping");
	earlier("an earlier object is not retrievable after housekeeping");
	sym_assert(arch_holds() == 0, "C04,C15", "a hold file is left behind");
	walkable();
}
void h_crash(void) { scenario(0); }
void h_fault(void) { scenario(1); }
