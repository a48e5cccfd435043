/* C28, C29: spellings of IDs, options of store; C11: get whose file operations fail */
#include "hx_pop.h"
static char sp[6][100];
/* spelling number k of an ID */
static char *spell(const char *id, int k, int up)
{
	char *s = sp[up & 3]; const char *pre[] = { "", HX_PREFIX, "HTTP://X.Y/", "hTTp://x.y/" }; strcpy(s, pre[k >> 1]); size_t n = strlen(s);
	for (size_t i = 0; i <= strlen(id); i++) s[n + i] = (char)((k & 1) && id[i] >= 'a' ? id[i] - 32 : id[i]);
	return s;
}
static void metaid(const char *ref, const void *p, size_t n, char *id)	/* as prescribed */
{
	char b[300], d[65]; env_sha_hex(p, n, d); snprintf(b, sizeof b, "<" HX_PREFIX "%s>\n%s\n", ref, d); env_sha_hex(b, strlen(b), d);
	memcpy(id, d, DIGITS); id[DIGITS] = 0;
}
static void is_meta(const char *printed, const char *id, const char *ref, const void *b, size_t n, const char *prop)
{
	char want[120];
	sym_assert(!strcmp(printed, id), prop, "another ID is printed than the prescribed one");
	arch_read(arch_limit); sym_need(!arch_bad, "C01,C03,C05", arch_why ? arch_why : "?");
	struct rec *r = arch_find(bare(id)); sym_assert(r != NULL, prop, "metadata is not stored under its ID"); if (!r) return;
	snprintf(want, sizeof want, "<" HX_PREFIX "%s>", ref);
	sym_assert(!strcmp(r->type, "metadata") && !strcmp(r->refers, want), prop, "metadata does not refer to the object");
	int g = get(id); sym_assert(g == 0 && ngot == n && sym_memeq(got, b, n), prop, "metadata is not retrieved with its bytes");
	for (int i = 0; i < nR; i++) if (R[i].segno == 1) { size_t l; const char *why; free(object(&R[i], &l, &why)); }
	sym_assert(idx_agrees(0) == 0, prop, "index does not describe the records");
}
void h_spell(void)
{
	static uint8_t m[2500]; char id[2][100], full[100], mid[40]; static struct snaps sn; size_t on, en;
	arch_init(1900); pop_share((int[]){ 0, 24 }[sym_pick(2)]);
	pop_list((int[]){ 1, 2 }[sym_pick((uint64_t)sym_arg("lists", 1))], 0);
	struct pobj *o = &P_[sym_pick((uint64_t)nP)]; int k = (int)sym_pick(8), k2 = (int)sym_pick((uint64_t)sym_arg("second", 8)), what = (int)sym_pick(5);
	size_t n = sym_bool() ? 2500 : 70; pop_fill(m, n, 0, 91, 0); m[3] = (uint8_t)sym_u(0, 255);
	char x[40]; strcpy(x, "ad0123456789abcdef0123456789feba");	/* some new ID */
	const char *a = spell(bare(o->id), k, 0), *b = spell(bare(o->id), k2, 1);
	if (what == 0) {	/* get */
		int r = get(a); sym_assert(r == 0 && ngot == o->n && sym_memeq(got, o->b, o->n), "C28", "an accepted spelling of an ID does not retrieve the object");
		r = getz(a); sym_assert(r == 0, "C28", "an accepted spelling of an ID does not retrieve the object");
		r = cli("get", "-n", a); const char *h = env_errtxt(&en); char *keep = malloc(en + 1); memcpy(keep, h, en); keep[en] = 0; size_t e1 = en;
		int r2 = cli("get", "-n", b); h = env_errtxt(&en); sym_assert(r == r2 && en == e1 && !memcmp(h, keep, en), "C28", "two spellings of an ID behave differently"); sym_reach("get");
	} else if (what == 1) {	/* reference */
		int r = store_meta(m, n, a, id[0]); sym_assert(r == 0, "C28", "a spelling of a reference is refused"); if (r) return;
		metaid(bare(o->id), m, n, mid); snprintf(full, sizeof full, HX_PREFIX "%s", mid);
		is_meta(id[0], full, bare(o->id), m, n, "C28,C29,C02");
		snap_take(&sn); r = store_meta(m, n, b, id[1]);
		sym_assert(r == 0 && !strcmp(id[0], id[1]) && snap_same(&sn), "C28,C14", "metadata with a reference spelled in another way is other metadata"); sym_reach("reference");
	} else if (what == 2) {	/* forced ID */
		int r = store_(m, n, (const char *[]){ "store", "-t", "metadata", "-m", "text/meta", "-r", o->id, "-i", spell(x, k, 0), NULL }, id[0]);
		sym_assert(r == 0, "C28", "a spelling of a forced ID is refused"); if (r) return;
		snprintf(full, sizeof full, HX_PREFIX "%s", x); is_meta(id[0], full, bare(o->id), m, n, "C28,C29");
		snap_take(&sn); r = store_(m, n, (const char *[]){ "store", "-t", "metadata", "-m", "text/meta", "-r", o->id, "-i", spell(x, k2, 0), NULL }, id[1]);
		sym_assert(r == 0 && !strcmp(id[0], id[1]) && snap_same(&sn), "C28,C14", "a forced ID spelled in another way is another one");
		r = get(spell(x, k2, 0)); sym_assert(r == 0 && ngot == n && sym_memeq(got, m, n), "C28,C29", "metadata with a forced ID is not retrieved by an accepted spelling"); sym_reach("forced");
	} else {	/* an ID which is not there, or no object: two spellings, same result */
		if (what == 4) { arch_read(arch_limit); int i = (int)sym_pick((uint64_t)nR); if (strcmp(R[i].type, "warcinfo") && strcmp(R[i].type, "continuation")) return; strcpy(x, R[i].id); for (i = 0; i < nP; i++) if (!strcmp(bare(P_[i].id), x)) return; }
		int r = get(spell(x, k, 0)); (void)env_errtxt(&en); sym_assert(r > 0 && ngot == 0 && en > 0, "C28,C13", "an ID which is no object is not refused");
		int r2 = cli("get", spell(x, k2, 0)); (void)env_errtxt(&en); (void)env_out(&on); sym_assert(r2 == r && on == 0 && en > 0, "C28,C13", "two spellings of an ID behave differently in the error case");
		snap_take(&sn);
		r = store_meta(m, n, spell(x, k, 0), id[0]); (void)env_errtxt(&en); (void)env_out(&on); sym_assert(r > 0 && on == 0 && en > 0 && snap_same(&sn), "C29,C28", "a reference to what is no object is not refused"); sym_reach("none");
	}
}
/* options of store: two of the five things varied, the others good */
void h_store_opt(void)
{
	static const char *T[] = { NULL, "resource", "metadata", "META", "", "ReSource", "MetaData" };
	static const char *M[] = { NULL, "text/plain", "text/meta", "text/none", "", "text", "text/plain ", "TEXT/META" };
	static const char *I[] = { "in", "-", "/f", "none", "two", "empty", "emptyf", "dir" };
	static uint8_t m[2500]; static struct snaps sn; const char *args[24]; int n = 0; size_t on, en; char id[100] = "", mid[40], full[100];
	arch_init(1900); pop_add(0, 3, 0); pop_add(5, 8, 0); pop_add(3, 9, 0);
	arch_read(arch_limit);
	const char *warc = NULL, *cont = NULL; for (int i = 0; i < nR; i++) { if (!strcmp(R[i].type, "warcinfo")) warc = R[i].id; if (!strcmp(R[i].type, "continuation")) cont = R[i].id; }
	const char *rf[] = { NULL, bare(P_[0].id), P_[1].id, P_[2].id, warc, cont, "0123456789abcdef0123456789abcdef", "0123", "xyz" HX_PREFIX, "" };
	const char *fi[] = { NULL, "ad0123456789abcdef0123456789feba", "http://x.y/ad0123456789abcdef0123456789feba", "ad0123456789abcdef0123456789feb", "ad0123456789abcdef0123456789feba0", "zd0123456789abcdef0123456789feba", "", bare(P_[0].id) };
	static const int cnt[] = { 9, 8, 12, 10, 8 }; int v[5], meta = sym_bool(), d1 = (int)sym_pick(5), d2 = (int)sym_pick(5); if (d2 < d1) return;
	v[0] = meta ? 2 : 0; v[1] = meta ? 2 : 0; v[2] = meta ? 1 : 0; v[3] = 0; v[4] = 0;
	v[d1] = (int)sym_pick((uint64_t)cnt[d1]); if (d2 != d1) v[d2] = (int)sym_pick((uint64_t)cnt[d2]);
	size_t len = sym_arg("long", 0) || (sym_bool()) ? 2500 : 80; pop_fill(m, len, 0, 55, 0); m[0] = (uint8_t)sym_u(0, 255);
	args[n++] = "store";
	int bad = 0, ty = 0;
	if (v[0] < 7) { if (T[v[0]]) { args[n++] = "-t"; args[n++] = T[v[0]]; } ty = v[0] == 2 || v[0] == 6; bad |= v[0] == 3 || v[0] == 4; }
	else { args[n++] = "-t"; args[n++] = "metadata"; args[n++] = "-t"; args[n++] = v[0] == 7 ? "metadata" : "resource"; bad = 1; }
	if (M[v[1]]) { args[n++] = "-m"; args[n++] = M[v[1]]; }
	bad |= ty ? v[1] != 2 && v[1] != 7 : v[1] > 1;
	if (v[2] < 10) { if (rf[v[2]]) { args[n++] = "-r"; args[n++] = rf[v[2]]; } bad |= ty ? !(v[2] >= 1 && v[2] <= 3) : v[2] != 0; }
	else { args[n++] = "-r"; args[n++] = P_[0].id; args[n++] = "-r"; args[n++] = v[2] == 10 ? P_[0].id : P_[1].id; bad = 1; }
	if (v[3] < 8) { if (fi[v[3]]) { args[n++] = "-i"; args[n++] = fi[v[3]]; } bad |= ty ? v[3] >= 3 && v[3] <= 6 : v[3] != 0; }
	else { args[n++] = "-i"; args[n++] = fi[1]; args[n++] = "-i"; args[n++] = v[3] == 8 ? fi[1] : fi[2]; bad = 1; }
	env_mkfile("/f", m, len); env_mkfile("/e", m, 0);
	switch (v[4]) { case 0: break; case 1: args[n++] = "-"; break; case 2: args[n++] = "/f"; break; case 3: args[n++] = "/none"; bad = 1; break; case 4: args[n++] = "/f"; args[n++] = "/f"; bad = 1; break; case 5: bad = 1; break; case 6: args[n++] = "/e"; bad = 1; break; case 7: args[n++] = "/nodir/f"; bad = 1; break; }
	(void)I; args[n] = NULL; env_set_stdin(m, v[4] == 5 ? 0 : len);
	snap_take(&sn);
	int r = cliv(args); const char *o = env_out(&on); (void)env_errtxt(&en);
	if (bad) {
		sym_assert(r > 0, "C29", "store with options which make no sense does not fail");
		sym_assert(on == 0 && en > 0, "C29", "store fails without an error message, or prints an ID all the same");
		sym_assert(snap_same(&sn) && arch_holds() == 0, "C29,C04", "store which is refused changes the archive"); sym_reach("refused"); return;
	}
	sym_assert(r == 0, "C29", "store with good options fails"); if (r) return;
	sym_assert(on > 1 && on < 90 && o[on - 1] == '\n', "C29", "store does not print one ID"); if (on < 2 || on >= 90) return; memcpy(id, o, on - 1); id[on - 1] = 0;
	if (ty && v[3] == 7) { sym_assert(snap_same(&sn), "C29,C14", "an ID already taken is stored again"); sym_reach("taken"); return; }
	if (ty) {
		const char *ref = bare(rf[v[2]]); if (v[3]) strcpy(mid, fi[1]); else metaid(ref, m, len, mid);
		snprintf(full, sizeof full, HX_PREFIX "%s", mid); is_meta(id, full, ref, m, len, "C29"); sym_reach("metadata");
	} else {
		int g = get(id); sym_assert(g == 0 && ngot == len && sym_memeq(got, m, len), "C29,C01", "object is not retrieved with its bytes"); sym_reach("resource");
		arch_read(arch_limit);
	}
	struct rec *q = arch_find(bare(id)); sym_assert(q && !strcmp(q->ctype, v[1] ? M[v[1]] : "application/octet-stream") && !strcmp(q->type, ty ? "metadata" : "resource"), "C29,C01", "object is stored with another type");
	arch_check("store");
}
/* get when its files cannot be read or written */
void h_get_fault(void)
{
	arch_init(1900); pop_list(1, 0); if (sym_bool()) cli("housekeeping");
	struct pobj *o = &P_[sym_pick((uint64_t)nP)]; int z = sym_bool(), kind = (int)sym_pick(3); uint8_t *b; size_t bn, used;
	env_fault_at = sym_range(0, (uint64_t)sym_arg("last", 40)); env_fault_half = kind == 1; env_nfault = 0; env_fault_armed = 1;
	int out = sym_bool(); size_t on, en;
	int r = out ? z ? cli("get", "-z", o->id) : cli("get", o->id) : z ? getz(o->id) : get(o->id);
	env_fault_armed = 0; const char *so = env_out(&on); (void)env_errtxt(&en);
	if (out) { got = (const uint8_t *)so; ngot = on; } else got = env_data("/out", &ngot);
	if (env_nfault <= env_fault_at) { sym_assert(r == 0, "C01", "get fails"); sym_reach("no fault"); }
	sym_assert(r != CLI_CRASH, "C11,C01", "get crashes when a file operation fails");
	if (r) { sym_reach("failed"); return; }
	if (!z) { sym_assert(ngot == o->n && sym_memeq(got, o->b, o->n), "C11,C01", "get succeeds, but does not deliver the object's bytes"); return; }
	int ok = env_gunzip(got, ngot, &b, &bn, &used); sym_assert(ok && used == ngot && bn == o->n && sym_memeq(b, o->b, bn), "C11,C12", "get -z succeeds, but does not deliver the object's bytes");
}
