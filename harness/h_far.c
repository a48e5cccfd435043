/* C01, C03, C09: silos of gigabytes: a record with a huge body, and others behind it */
#include "hx_pop.h"
void h_far(void)
{
	static const uint64_t T[] = { 0, 0x7ffffff8, 0x80000000, 0xffffffd8, 0x100000000, 0x100000077, 5000000000, 0x10000000000 };
	static const uint64_t M[] = { 1 << 20, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100001000, 5000000000, 0x4000000000000000 };
	static const uint64_t room[] = { 0, 100, 3000, 1ULL << 33 };
	char big[90], b[64]; struct snaps s; uint64_t t, m; size_t n; int fits = 1;
	arch_init((uint64_t)1 << 62); env_z_rle = 1; silo_path(b, sizeof b, 0);
	pop_share((int)sym_pick(2) * 8);
	t = T[sym_range((uint64_t)sym_arg("from", 0), (uint64_t)sym_arg("to", 7))];
	if (!t) arch_cfg(M[sym_pick(8)]);
	pop_add(0, 3, 0);
	if (t) {
		static uint8_t x[200]; pop_fill(x, sizeof x, 0, 77, 0);
		sym_need(store(x, sizeof x, big) == 0, "C01", "store does not succeed");
		uint8_t *d = env_data(b, &n); struct rec *r; arch_read(2); sym_need(!arch_bad, "C05", arch_why ? arch_why : "?");
		r = arch_find(bare(big)); sym_need(r != NULL && r->off + r->hlen + r->bl + 24 == n, "C01", "a record is not appended to the first silo");
		/* now the body gets longer */
		arch_hs = r->off + r->hlen + 40; arch_hl = t - n; le64enc(d + r->off + r->hlen + 16, r->bl + arch_hl); env_hole(b, arch_hs, arch_hl);
		m = t + room[sym_pick(4)]; fits = m >= t + 3000; arch_cfg(m);
	}
	pop_add(sym_bool() ? 6 : 0, 50, 1);
	arch_check("");
	struct rec *r = arch_find(bare(P_[1].id)); sym_need(r != NULL, "C01", "no record");
	if (fits && t) { sym_assert(r->silo == 0 && r->off == t, "C03", "an object which fits in a silo is not put there"); sym_reach("behind"); }
	else if (t) { sym_assert(r->silo == 1, "C03", "an object is put in a silo it does not fit in"); sym_reach("next silo"); }
	if (arch_max < 0x80000000) sym_reach("small");
	all_there("C01", "an object is not returned byte for byte");
	sym_assert(cli("byid", P_[1].id) == 1, "C26", "byid does not find the record");
	sym_assert(getz(P_[1].id) == 0, "C12", "get -z fails");
	snap_take(&s); char id[90];
	int q = P_[1].meta; (void)q;
	sym_assert(store(P_[1].b, P_[1].n, id) == 0 && !strcmp(id, P_[1].id) && snap_same(&s), "C14", "storing again changes something");
	pop_add(3, 9, 0);
	sym_need(cli("housekeeping") == 0, "C07", "housekeeping fails");
	arch_check("");
	all_there("C01", "an object is not returned byte for byte");
	rm_index();
	sym_assert(cli("reindex") == 0, "C09", "reindex fails");
	int g = idx_agrees(0);
	sym_assert(g >= 0, "C09", "a record is missing in the index after reindex, or has wrong fields");
	sym_assert(g <= 0, "C09", "reindex adds an entry without a record");
	all_there("C09", "an object is not retrievable after reindex");
	sym_reach("done");
}
