/* C26: listing the index, looking records up by a part of their ID */
#include "hx_pop.h"
static char frag[100];
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* a fragment of the ID of some record: any length, its last digit arbitrary, either case */
static size_t mkfrag(int prefix, int anydigit)
{
	static const size_t len[] = { 0, 1, 7, 8, 24, 25, 32, 33, 2, 3, 23, 31, 40 };
	size_t n = len[sym_pick((uint64_t)sym_arg("lens", 13))], k = 0, i; struct rec *r = &R[n > 3 ? sym_pick((uint64_t)(nR < 3 ? nR : 3)) : 0];
	if (prefix) { strcpy(frag, prefix > 1 ? "HTTP://x.Y/" : HX_PREFIX); k = strlen(frag); }
	int up = sym_bool();
	for (i = 0; i < n; i++) { int c = i < strlen(r->id) ? r->id[i] : '0'; frag[k + i] = (char)(up && c >= 'a' ? c - 32 : c); }
	frag[k + n] = 0;
	if (n && n < 33 && !anydigit) { if (sym_bool()) frag[k + n - 1] = frag[k + n - 1] == '3' ? '4' : '3'; }
	else if (n && n < 33) frag[k + n - 1] = (char)(sym_bool() ? sym_u('0', '9') : up ? sym_u('A', 'F') : sym_u('a', 'f'));
	return k;
}
static int starts(const char *id, const char *f) { size_t l = strlen(f); if (l > strlen(id)) return 0; int ok = 1; for (size_t i = 0; i < l; i++) ok &= lc(f[i]) == id[i]; return ok; }
/* next line of p, cut into words */
static const char *words(const char *p, char w[8][100], int *n)
{
	*n = 0;
	while (*p && *p != '\n') {
		int k = 0; if (*p == ' ') { p++; continue; }
		while (*p && *p != ' ' && *p != '\n') { if (*n < 8 && k < 99) w[*n][k++] = *p; p++; }
		if (*n < 8) { w[*n][k] = 0; (*n)++; }
	}
	return *p ? p + 1 : p;
}
static uint64_t numb(const char *s, int *bad)
{
	uint64_t v = 0; int base = 10, any = 0;
	if (s[0] == '0' && s[1] == 'x') { base = 16; s += 2; }
	for (; *s; s++) { int d = *s >= '0' && *s <= '9' ? *s - '0' : base == 16 && *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : 99; if (d >= base) { *bad = 1; return 0; } v = v * (unsigned)base + (unsigned)d; any = 1; }
	if (!any) *bad = 1;
	return v;
}
void h_byid(void)
{
	size_t on; int nw; char w[8][100];
	arch_init(1900);
	pop_share((int[]){ 8, 0, 24 }[sym_pick((uint64_t)sym_arg("modes", 3))]);
	pop_list((int)((2 + sym_pick((uint64_t)sym_arg("lists", NPOP))) % NPOP), 0);
	arch_read(arch_limit); sym_need(!arch_bad, "C01,C03,C05", arch_why ? arch_why : "?");
	int st = (int)sym_pick((uint64_t)sym_arg("idx", 3));
	if (st == 2) { rm_index(); sym_need(cli("reindex") == 0, "C09", "reindex fails"); }
	if (st == 1) cli("housekeeping");
	int opt = (int)sym_pick(3), two = opt == 1, e = opt == 2; char f2[4] = "c0f"; const char *args[8]; int n = 0;
	size_t k = mkfrag(opt ? 0 : (int)sym_pick(3), !opt && st == 0);
	args[n++] = "byid"; if (e) args[n++] = "-e"; args[n++] = frag; if (two) args[n++] = f2; args[n] = NULL;
	int r = cliv(args); const char *o = env_out(&on);
	int want = 0, seen[2][MAXREC] = { { 0 } }, expect[2][MAXREC] = { { 0 } };
	for (int i = 0; i < nR; i++) for (int q = 0; q <= two; q++) if (starts(R[i].id, q ? f2 : frag + k)) { expect[q][i] = 1; want++; }
	sym_assert(r >= 0, "C26", "byid aborts");
	if (r < 0) return;
	int got_ = 0;
	while (*o) {
		o = words(o, w, &nw); got_++;
		sym_assert(nw == 4 && !strcmp(w[0], "id") && !strcmp(w[2], "wt"), "C26", "byid prints something else than records");
		if (nw != 4) return;
		int hit = 0;
		for (int q = 0; q <= two && !hit; q++) for (int i = 0; i < nR && !hit; i++) if (expect[q][i] && !seen[q][i] && !strcmp(w[1], R[i].id) && !strcmp(w[3], R[i].type)) seen[q][i] = hit = 1;
		sym_assert(hit, "C26", "byid prints a record whose ID does not start with the fragment, or prints it twice, or with the wrong type");
	}
	sym_assert(got_ == want, "C26", "byid does not print all records whose ID starts with the fragment");
	sym_assert(r == (e ? 0 : want), "C26", "exit status of byid is not the number of records found");
	if (want) sym_reach("found"); else sym_reach("none");
}
/* many matches */
void h_byid_many(void)
{
	size_t on, n; int lines = 0;
	arch_init(1900); pop_list(0, 0);
	uint8_t *d = env_data("/s/index.appendix", &n); sym_need(d != NULL && n >= 64, "env", "index");
	uint8_t e[32]; memcpy(e, d + 32, 32);
	int cnt = (int)(int[]){ 254, 255, 256, 257, 300, 512 }[sym_pick(6)];
	uint8_t *b = malloc(32 * (size_t)cnt); for (int i = 0; i < cnt; i++) memcpy(b + 32 * i, e, 32);
	env_mkfile("/s/index.appendix", b, 32 * (size_t)cnt);
	char f[9]; memcpy(f, bare(P_[0].id), 8); f[8] = 0;
	/* the entry is that of the object or of the warcinfo, whichever was inserted second */
	int r = cli("byid", f); const char *o = env_out(&on); for (; *o; o++) lines += *o == '\n';
	sym_assert(lines == cnt || lines == 0, "C26", "byid does not print all records");
	sym_assert(r == (lines < 255 ? lines : 255), "C26", "exit status of byid is not the number of records found or 255");
	if (lines) sym_reach("many");
}
/* fragments which are none */
void h_frag_bad(void)
{
	size_t on, en;
	arch_init(1900); pop_list(1, 0);
	int dump = sym_bool(); size_t n = 1 + sym_pick((uint64_t)sym_arg("n", 4)), at = sym_pick(n);
	strcpy(frag, "c0ffee"); char *f = frag;
	int form = dump ? 0 : (int)sym_pick(2); if (form) { strcpy(frag, HX_PREFIX "c0ffee"); f = frag + strlen(HX_PREFIX); }
	f[n] = 0; f[at] = (char)sym_u(1, 255);
	if (!form && f[0] == '-') return;
	int ok = hx_hex(f[at]);
	int r = dump ? cli("dumpindex", frag) : cli("byid", frag);
	(void)env_out(&on); (void)env_errtxt(&en);
	if (ok) { sym_assert(r == (dump ? 0 : (int)(r >= 0 ? r : 0)) && en == 0, "C26", "a good ID fragment is refused"); sym_reach("good"); }
	else { sym_assert(r > 0 && on == 0 && en > 0, "C26", "a malformed ID fragment is not refused with an error message"); sym_reach("bad"); }
}
/* dumpindex: n entries of arbitrary contents anywhere in the index */
static uint8_t E[6][32]; static int nE;
void h_dumpindex(void)
{
	static const uint32_t fl[] = { IDX_F_WARCINFO, IDX_F_RESOURCE, IDX_F_METADATA, IDX_F_SEGMENTED | IDX_F_FIRSTSEG | IDX_F_RESOURCE, IDX_F_SEGMENTED | IDX_F_LASTSEG, IDX_F_SEGMENTED | IDX_F_FIRSTSEG | IDX_F_METADATA, 0 };
	static const uint32_t si[] = { 0, 7, 12345678, 0xffffffffu };
	static const uint64_t of[] = { 0, 9, 1234567890123ULL, 0x7fffffffffffffffULL };
	static const char *types[] = { NULL, "metadata", "resource", "warcinfo" };
	static const uint32_t tf[] = { 0, IDX_F_METADATA, IDX_F_RESOURCE, IDX_F_WARCINFO };
	char w[8][100]; int nw; size_t on; const char *args[8]; int n = 0, bad = 0;
	arch_init(1900);
	nE = (int)sym_range(0, (uint64_t)sym_arg("n", 2));
	for (int i = 0; i < nE; i++) {
		for (int k = 0; k < 12; k++) E[i][k] = (uint8_t)(0xc0 + k);
		E[i][11] = (uint8_t)i;
		E[i][(int[]){ 0, 3 }[sym_pick(2)]] = (uint8_t)(int[]){ 0xc0, 0xc1, 0xd0, 0x0a }[sym_pick(4)];
		be32enc(E[i] + 12, fl[sym_pick(7)]); int v = (int)sym_pick(4); be32enc(E[i] + 16, si[v]); be64enc(E[i] + 20, of[v]);
		for (int k = 0; k < 4; k++) E[i][28 + k] = (uint8_t)(v ? 0x0f * k : 0);
	}
	int where = (int)sym_pick(3), split = nE ? (int)sym_pick((uint64_t)nE + 1) : 0;	/* how many are already sorted */
	if (where && split) { env_mkfile("/s/index.appendix", E, 32 * (size_t)split); cli("housekeeping"); } else split = 0;
	if (nE > split) env_mkfile(where == 2 ? "/s/index.housekeep" : "/s/index.appendix", E[split], 32 * (size_t)(nE - split));
	int t = (int)sym_pick(4); static const char *parts[] = { NULL, "c0c1c2", "C0C", "d", "c0c1c2c3c4c5c6c7c8c9ca00", "c0c1c2c3c4c5c6c7c8c9ca01ffff", "" };
	int p = (int)sym_pick(7), two = p && sym_bool();
	args[n++] = "dumpindex"; if (t) { args[n++] = "-t"; args[n++] = types[t]; } if (p) args[n++] = parts[p]; if (two) args[n++] = "0a"; args[n] = NULL;
	int r = cliv(args); const char *o = env_out(&on);
	sym_assert(r == 0, "C26", "dumpindex fails");
	if (r) return;
	int expect[2][6] = { { 0 } }, want = 0, got_ = 0;
	for (int q = 0; q <= two; q++) for (int i = 0; i < nE; i++) {
		const char *f = q ? "0a" : p ? parts[p] : ""; char hex[25]; int m = 1;
		for (int k = 0; k < 12; k++) snprintf(hex + 2 * k, 3, "%02x", E[i][k]);
		for (int k = 0; f[k] && k < 24; k++) m &= lc(f[k]) == hex[k];
		if (m && (!t || (be32dec(E[i] + 12) & tf[t]))) { expect[q][i] = 1; want++; }
	}
	while (*o) {
		o = words(o, w, &nw); got_++;
		sym_assert(nw == 5, "C26", "dumpindex prints something else than entries");
		if (nw != 5) return;
		int hit = 0; char hex[25], cont[9]; uint64_t f = numb(w[1], &bad), s = numb(w[2], &bad), of_ = numb(w[3], &bad);
		for (int q = 0; q <= two && !hit; q++) for (int i = 0; i < nE && !hit; i++) if (expect[q][i]) {
			for (int k = 0; k < 12; k++) snprintf(hex + 2 * k, 3, "%02x", E[i][k]);
			for (int k = 0; k < 4; k++) snprintf(cont + 2 * k, 3, "%02x", E[i][28 + k]);
			if (!strcmp(w[0], hex) && !strcmp(w[4], cont) && f == be32dec(E[i] + 12) && s == be32dec(E[i] + 16) && of_ == be64dec(E[i] + 20)) { expect[q][i] = 0; hit = 1; }
		}
		sym_assert(hit && !bad, "C26", "dumpindex prints an entry which does not match, or wrong fields, or prints it twice");
	}
	sym_assert(got_ == want, "C26", "dumpindex does not print all matching entries");
	if (want) sym_reach("listed");
}
/* types which are none */
void h_dump_type(void)
{
	size_t on, en; char t[10];
	static const char *good[] = { "metadata", "resource", "warcinfo" };
	arch_init(1900); pop_list(0, 0);
	strcpy(t, good[sym_pick(3)]); size_t l = strlen(t), at = sym_pick(l + 1); t[at] = (char)sym_u(0, 255); t[at == l ? l + 1 : l] = 0;
	int ok = 0; for (int i = 0; i < 3; i++) ok |= !strcmp(t, good[i]);
	int r = cli("dumpindex", "-t", t); (void)env_out(&on); (void)env_errtxt(&en);
	if (ok) sym_assert(r == 0 && en == 0, "C26", "a good type is refused"); else sym_assert(r > 0 && on == 0 && en > 0, "C26", "a type which does not exist is not refused with an error message");
	sym_reach(ok ? "good" : "bad");
}
