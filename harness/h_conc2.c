/* C16, C08, C04: two commands, each interrupted once by the other: A runs up to some call, B up to some call, A to its end, B to its end */
#include "hx_arch.h"
extern char *optarg;
static uint8_t A[1200]; static size_t an; static char idA[90];
struct op { int kind, r; uint8_t b[3400]; size_t n; char id[90]; }; static struct op O[2]; static int state, third;
struct go { int ind; char *arg; }; static struct go gA, gB;
static void fill(uint8_t *b, size_t n, int seed) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + (i >> 8) + (size_t)seed); }
static int has(const char *id, const uint8_t *b, size_t n) { int r = get(id); return r == 0 && ngot == n && sym_memeq(got, b, n); }
static void doop(struct op *o)
{
	switch (o->kind) {
	case 0: case 1: o->r = store(o->b, o->n, o->id); break;
	case 2: o->r = store_meta(o->b, o->n, idA, o->id); break;
	case 3: o->r = cli("housekeeping"); break;
	case 4: o->r = cli("byid", bare(idA)) < 1; break;	/* an entry on its way to the sorted index may be found twice */
	}
}
static void paused(void) { gB.ind = optind; gB.arg = optarg; sym_co_yield(); optind = gB.ind; optarg = gB.arg; optreset = 0; }
static void other(void *p) { (void)p; doop(&O[1]); }
static void inner(void)
{
	gA.ind = optind; gA.arg = optarg;
	env_proc_push();
	env_hook = paused; env_hook_at = sym_range((uint64_t)sym_arg("bfirst", 0), (uint64_t)sym_arg("blast", 90)); env_ops = 0; env_hook_armed = 1;
	if (sym_co_start(other, NULL)) { env_proc_pop(); state = 2; } else { env_proc_switch(); state = 1; }
	env_hook_armed = 0;
	optind = gA.ind; optarg = gA.arg; optreset = 0;
}
static void mk(struct op *o, int kind, int seed)
{
	static const size_t len[] = { 150, 2600, 120, 0, 0 };
	o->kind = kind; o->n = len[kind]; fill(o->b, o->n, seed); if (o->n) o->b[0] = (uint8_t)sym_u(0, 255);
}
void h_conc2(void)
{
	int r; static struct snaps sn; static const int pair[][2] = { { 0, 0 }, { 3, 3 }, { 0, 3 }, { 3, 0 }, { 0, 1 }, { 1, 0 }, { 1, 1 }, { 2, 0 }, { 1, 3 }, { 3, 1 }, { 2, 2 }, { 3, 4 } };
	arch_init((uint64_t)sym_arg("max", 2700)); env_z_rle = 1;
	fill(A, sizeof A, 1);
	int pk = (int)sym_range((uint64_t)sym_arg("pfrom", 0), (uint64_t)sym_arg("pto", 3)), same = 0;
	mk(&O[0], pair[pk][0], 77); mk(&O[1], pair[pk][1], 130);
	if (O[0].kind == O[1].kind && O[0].n) { same = (int)sym_pick((uint64_t)sym_arg("same", 1)); if (same) O[1] = O[0]; }
	third = (int)sym_range((uint64_t)sym_arg("thfrom", 0), (uint64_t)sym_arg("thto", 1)); an = third == 1 ? (size_t)sym_arg("tight", 700) : 150;
	int haveA = third < 2 || O[0].kind == 2 || O[1].kind >= 2;
	if (haveA) { r = store(A, an, idA); sym_need(r == 0, "C01", "store does not succeed"); }
	if (haveA && third == 2) sym_need(cli("housekeeping") == 0, "C07", "housekeeping fails");
	snap_take(&sn);
	env_hook_shared = 1; env_hook = inner; env_hook_at = sym_range((uint64_t)sym_arg("first", 0), (uint64_t)sym_arg("last", 90)); env_ops = 0; env_hook_armed = 1; state = 0;
	doop(&O[0]);
	env_hook_armed = 0;
	if (state == 1) {	/* the other one is not finished */
		env_proc_switch(); optind = gB.ind; optarg = gB.arg;
		if (!sym_co_resume()) sym_fail("env", "harness: the other process waits again");
		env_proc_pop(); sym_reach("both in turns");
	}
	if (!state) { sym_reach("not reached"); return; }
	sym_note(1, (uint64_t)pk * 10 + (uint64_t)same);
	int both = same && O[0].n;
	for (int k = 0; k < 2; k++) sym_assert(O[k].r == 0, O[k].kind == 3 ? "C16,C08" : "C16", O[k].kind == 3 ? "housekeeping fails because something else runs" : O[k].kind == 4 ? "an ID is not found while something else runs" : "a store fails because something else runs");
	if (haveA) sym_assert(has(idA, A, an), "C16,C01,C08", "an earlier object is not retrievable afterwards");
	for (int k = 0; k < 2; k++) if (O[k].n && O[k].r == 0) sym_assert(has(O[k].id, O[k].b, O[k].n), O[1 - k].kind == 3 ? "C16,C01,C08" : "C16,C01", "a stored object is not retrievable after something else ran");
	sym_assert(snap_grown(&sn), "C16,C04", "a silo lost or changed what it held before");
	arch_read(12);
	sym_assert(!arch_bad, "C16,C05,C04", arch_why ? arch_why : "?");
	char b[64]; size_t n; for (int s = 0; s < 12; s++) { silo_path(b, sizeof b, (unsigned)s); (void)env_data(b, &n); sym_assert(n <= arch_max, "C16,C03", "silo larger than the maximum size"); }
	sym_assert(arch_holds() == 0, "C16,C04", "a hold file is left behind");
	sym_assert(!env_exists("/s/index.hold"), "C16,C07,C08", "the hold file of housekeeping is left behind");
	if (!both && !arch_bad) {
		const char *why; for (int i = 0; i < nR; i++) if (R[i].segno == 1) { free(object(&R[i], &n, &why)); sym_assert(why == NULL, "C16,C03", why ? why : "?"); }
		sym_assert(idx_agrees(1) == 0, "C16,C08", "index and silos do not agree afterwards");
	}
	r = cli("housekeeping"); sym_assert(r == 0, "C16,C07,C08", "housekeeping fails afterwards");
	if (!both && !arch_bad) sym_assert(idx_agrees(1) == 0, "C16,C07,C08", "index and silos do not agree after housekeeping");
	sym_reach("done");
}
