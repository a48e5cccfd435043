/* C09: the index rebuilt from the silos */
#include "hx_pop.h"
static char sname[12][64]; static int ns;
static void silos(void) { char b[64]; ns = 0; for (unsigned s = 0; s < 12; s++) { silo_path(b, sizeof b, s); if (env_exists(b)) strcpy(sname[ns++], b); } }
/* an arbitrary order of ns things; beyond four, rotations and reversals */
static int ord[12];
static void order(void)
{
	for (int i = 0; i < ns; i++) ord[i] = i;
	if (ns <= 4) for (int i = 0; i + 1 < ns; i++) { int j = i + (int)sym_pick((uint64_t)(ns - i)), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
	else { int rot = (int)sym_pick((uint64_t)ns), rev = sym_bool(); for (int i = 0; i < ns; i++) { int k = (i + rot) % ns; ord[i] = rev ? ns - 1 - k : k; } }
}
static void popul(void)
{
	static const char *base[] = { "%08u.warc.gz", "s1lo%u.gz", "a-%u-0.gz" }; static const int dig[] = { 0, 8, 24 };
	int w = (int)sym_pick((uint64_t)sym_arg("lists", NPOP)); 
	arch_base = base[w == 1 || w == 5 ? sym_pick(3) : 0];
	arch_init((uint64_t)sym_arg("max", 2700)); env_z_rle = 1;
	pop_share(dig[sym_pick((uint64_t)sym_arg("modes", 3))]);
	pop_list(w, 0);
	if (sym_bool()) sym_need(cli("housekeeping") == 0, "C07", "housekeeping fails");
	arch_check(""); silos();
	for (int i = 0; i < nR; i++) if (R[i].segno == 1) { size_t n; const char *why; free(object(&R[i], &n, &why)); }
}
void h_reindex(void)
{
	const char *a[16]; int k = 0, r, m;
	popul();
	rm_index();
	m = (int)sym_pick(3);
	if (m == 0) r = cli("reindex");
	else { order(); if (m == 2 && ns > 2) sym_reach("spread"); a[k++] = "reindex"; for (int i = 0; i < ns; i++) a[k++] = sname[ord[i]]; a[k] = NULL; if (m == 2) { a[k++] = a[1]; a[k] = NULL; /* one of them twice */ } r = cliv(a); }
	sym_assert(r == 0, "C09", "reindex fails");
	if (r) return;
	int g = idx_agrees(m == 2);
	sym_assert(g >= 0, "C09", "a record is missing in the index after reindex, or has wrong fields");
	sym_assert(g <= 0, "C09", "reindex adds an entry without a record");
	all_there("C09", "an object is not retrievable after reindex");
	if (m == 0 && nR > 4) sym_reach("all silos");
	sym_assert(cli("housekeeping") == 0, "C07,C09", "housekeeping fails after reindex");
	all_there("C09", "an object is not retrievable after reindex and housekeeping");
}
/* every entry describes a record, and the records of complete objects and unsegmented ones in the given silos are there */
static void covered(const int *have)
{
	idx_read();
	for (int k = 0; k < nX; k++) { int f = 0; uint8_t e[32]; for (int i = 0; i < nR; i++) { wantentry(&R[i], e); if (!memcmp(e, X_[k], 32)) f = 1; } sym_assert(f, "C09", "reindex adds a wrong entry"); }
	for (int i = 0; i < nR; i++) {
		if (!have[R[i].silo]) continue;
		if (R[i].segno) { char o[65]; int all = 1; if (R[i].segno == 1) strcpy(o, R[i].id); else if (!originof(&R[i], o)) continue;
			for (int s = 1; ; s++) { struct rec *q = segof(o, s); if (!q) break; if (!have[q->silo]) all = 0; } if (!all) { sym_reach("incomplete"); continue; } }
		int f = 0; uint8_t e[32]; wantentry(&R[i], e); for (int k = 0; k < nX; k++) if (!memcmp(e, X_[k], 32)) f = 1;
		sym_assert(f, "C09", "a record is missing in the index after reindexing its silo");
	}
}
/* some of the silos, in several steps, over an existing index or none */
void h_reindex_some(void)
{
	int have[12] = { 0 }, r, over;
	popul(); over = sym_bool();
	if (!over) rm_index(); else for (int i = 0; i < 12; i++) have[i] = 1;
	int steps = 1 + (int)sym_pick(2), there = 0;
	for (int s = 0; s < steps; s++) {
		const char *a[16]; int k = 0, now[12] = { 0 }; a[k++] = "reindex";
		for (int i = 0; i < ns; i++) if (sym_bool()) { a[k++] = sname[i]; now[i] = 1; }
		if (k == 1) return; a[k] = NULL;
		r = cliv(a); sym_assert(r == 0, "C09", "reindex fails"); if (r) return;
		if (!over) { if (s == 0) memcpy(have, now, sizeof have); else { for (int i = 0; i < 12; i++) there |= have[i] && !now[i]; } }
		if (s == 0 || over) covered(have); else covered(now);
	}
	if (over) { all_there("C09", "an object is not retrievable after reindexing over an existing index"); sym_reach("over"); }
	if (over) { sym_assert(cli("housekeeping") == 0, "C07,C09", "housekeeping fails after reindex"); all_there("C09", "an object is not retrievable after reindex and housekeeping"); }
}
/* a segmented store was killed and repeated: its left-over segments are in the way */
void h_reindex_crash(void)
{
	static uint8_t x[4200]; char id[90]; int r; size_t n = sym_bool() ? 2500 : 4200;
	arch_init((uint64_t)sym_arg("max", 2700)); env_z_rle = 1;
	pop_share((int)sym_pick(2) * 24);
	pop_list((int)sym_pick((uint64_t)sym_arg("lists", 2)), 0);
	pop_fill(x, n, 0, 99, 0);
	env_crash_at = env_mut + sym_range((uint64_t)sym_arg("first", 0), (uint64_t)sym_arg("last", 50)); env_crash_armed = 1; env_tear = 0;
	r = store(x, n, id); env_crash_armed = 0;
	if (r != CLI_CRASH) { sym_reach("not killed"); return; }
	env_pid++; arch_rmholds();
	arch_read(12); if (arch_bad) { sym_reach("incomplete record"); return; }
	r = store(x, n, id); sym_need(r == 0, "C15", "storing again after a crash fails");
	memcpy(P_[nP].id, id, sizeof id); P_[nP].b = x; P_[nP].n = n; nP++;
	arch_read(12); sym_need(!arch_bad, "C05", "silo is not a sequence of records after a crash"); silos();
	rm_index();
	if (sym_bool()) r = cli("reindex"); else { const char *a[16]; int k = 0; order(); a[k++] = "reindex"; for (int i = 0; i < ns; i++) a[k++] = sname[ord[i]]; a[k] = NULL; r = cliv(a); }
	sym_assert(r == 0, "C09", "reindex fails when a store was killed and repeated earlier");
	if (r) return;
	all_there("C09", "an object is not retrievable after reindex");
	sym_reach("repeated");
}
