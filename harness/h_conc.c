/* C16 (C01 C03 C04 C05 C15): another command runs at any point of a store */
#include "hx_arch.h"
extern char *optarg;
static uint8_t A[1200]; static size_t an; static uint8_t X[3400], Y[2600]; static char idA[90], idX[90], idY[90];
static int xk, yk, yr, ran; static size_t xn, yn; static const uint8_t *yb;
static void fill(uint8_t *b, size_t n, int seed) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + (i >> 8) + (size_t)seed); }
static int has(const char *id, const uint8_t *b, size_t n) { int r = get(id); return r == 0 && ngot == n && sym_memeq(got, b, n); }
static int wants_store(int k) { return k <= 3; }
static int someid(char *id) { (void)id; return 0; }
static int isprot[12]; static size_t protn[12];	/* write-protected while nobody held them */
static void inner(void)
{
	int oi = optind, orst = optreset; char *oa = optarg; size_t n;
	ran = 1; env_proc_push();
	switch (yk) {
	case 0: yb = Y; yn = 130; yr = store(yb, yn, idY); break;
	case 1: yb = Y; yn = 2500; yr = store(yb, yn, idY); break;
	case 2: yb = Y; yn = 60; yr = store_meta(yb, yn, idA, idY); break;
	case 3: yb = X; yn = xn; yr = xk == 2 ? store_meta(yb, yn, idA, idY) : store(yb, yn, idY); break;
	case 4: yr = cli("housekeeping"); break;
	case 5: env_remove("/out"); yr = !has(idA, A, an); env_remove("/out"); break;
	case 6: yr = cli("byid", bare(idA)) != 1; break;
	case 7: yr = 0; env_root = 1; { char b[70]; for (int i = 0; i < 12; i++) { silo_path(b, sizeof b, (unsigned)i); isprot[i] = 0; if (!env_exists(b)) continue; strcat(b, ".hold"); if (env_exists(b)) continue; b[strlen(b) - 5] = 0; env_chmod(b, 0440); (void)env_data(b, &protn[i]); isprot[i] = 1; } } break;
	case 8: yr = 0; { int r = cli("audit"); if (r < 0) yr = 1; } break;
	}
	(void)n; env_proc_pop(); optind = oi; optreset = orst; optarg = oa;
}
void h_conc_store(void)
{
	int r; (void)someid;
	arch_init((uint64_t)sym_arg("max", 2700)); env_z_rle = 1;
	fill(A, sizeof A, 1); fill(Y, sizeof Y, 77); fill(X, sizeof X, 130);
	xk = (int)sym_pick((uint64_t)sym_arg("nx", 4)); static const size_t len[] = { 150, 2600, 120, 3300 };
	xn = len[xk]; X[0] = (uint8_t)sym_u(0, 255); X[xn - 1] = (uint8_t)sym_u(0, 255);
	yk = (int)sym_pick((uint64_t)sym_arg("ny", 7)); int ybase = (int)sym_arg("ybase", 0); yk += ybase;
	/* an earlier object, which may leave room for one of the others only, or an empty archive */
	int haveA = yk == 2 || yk >= 5 || xk == 2 || yk == 3 ? 1 : sym_bool();
	an = haveA && yk != 1 && yk < 4 && xk != 1 ? (size_t[]){ 150, (size_t)sym_arg("tight", 700) }[sym_bool()] : 150;
	if (haveA) { r = store(A, an, idA); sym_need(r == 0, "C01", "store does not succeed"); }
	static struct snaps sn; snap_take(&sn);
	env_hook = inner; env_hook_at = sym_range((uint64_t)sym_arg("first", 0), (uint64_t)sym_arg("last", 250)); env_ops = 0; env_hook_armed = 1; ran = 0;
	r = xk == 2 ? store_meta(X, xn, idA, idX) : store(X, xn, idX);
	env_hook_armed = 0;
	if (!ran) { sym_reach("not reached"); sym_assert(r == 0, "C01,C16", "store does not succeed"); return; }
	sym_note(1, (uint64_t)xk * 10 + (uint64_t)yk);
	sym_assert(r == 0, "C16", "a store fails because something else runs");
	if (wants_store(yk)) sym_assert(yr == 0, "C16", "a store fails because another one runs");
	else sym_assert(yr == 0, "C16", yk == 4 ? "housekeeping fails during a store" : yk == 5 ? "an object is not retrievable during a store" : yk == 6 ? "an ID is not found during a store" : "audit aborts during a store");
	if (haveA) sym_assert(has(idA, A, an), "C16,C01", "an earlier object is not retrievable afterwards");
	if (r == 0) sym_assert(has(idX, X, xn), "C16,C01", "the stored object is not retrievable after something else ran");
	if (wants_store(yk) && yr == 0) {
		sym_assert(has(idY, yb, yn), "C16,C01", "the object stored meanwhile is not retrievable");
		if (yk == 3 && r == 0) sym_assert(!strcmp(idX, idY), "C16,C02", "the same content gets different IDs");
	}
	sym_assert(snap_grown(&sn), "C16,C04", "a silo lost or changed what it held before");
	for (int i = 0; i < 12; i++) if (isprot[i]) { size_t l; char b[64]; silo_path(b, sizeof b, (unsigned)i); (void)env_data(b, &l); sym_assert(l == protn[i], "C16,C04", "something is appended to a silo after it was write-protected"); sym_reach("protected"); }
	arch_read(12);
	sym_assert(!arch_bad, "C16,C05", arch_why ? arch_why : "?");
	char b[64]; size_t n; for (int s = 0; s < 12; s++) { silo_path(b, sizeof b, (unsigned)s); (void)env_data(b, &n); sym_assert(n <= arch_max, "C16,C03", "silo larger than the maximum size"); }
	sym_assert(arch_holds() == 0, "C16,C04", "a hold file is left behind");
	if (yk != 3 && !arch_bad) {
		const char *why; for (int i = 0; i < nR; i++) if (R[i].segno == 1) { free(object(&R[i], &n, &why)); sym_assert(why == NULL, "C16,C03", why ? why : "?"); }
		sym_assert(idx_agrees(1) == 0, "C16", "index and silos do not agree afterwards");
	}
	r = cli("housekeeping"); sym_assert(r == 0, "C16,C07", "housekeeping fails afterwards");
	if (haveA) sym_assert(has(idA, A, an), "C16", "an earlier object is not retrievable after housekeeping");
	sym_assert(has(idX, X, xn), "C16", "the stored object is not retrievable after housekeeping");
	if (wants_store(yk)) sym_assert(has(idY, yb, yn), "C16", "the object stored meanwhile is not retrievable after housekeeping");
	sym_reach("done");
}
