/* C10 C11: audit and get on undamaged and damaged archives */
#include "hx_pop.h"
/* a self-delimiting member holding d */
static size_t mkmember(uint8_t *o, const void *d, size_t n)
{
	static const uint8_t h[16] = { 0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 2, 3, 12, 0, 'A', 'a', 8, 0 };
	memcpy(o, h, 16); o[24] = 1; o[25] = (uint8_t)n; o[26] = (uint8_t)(n >> 8); o[27] = (uint8_t)~o[25]; o[28] = (uint8_t)~o[26];
	memcpy(o + 29, d, n); le32enc(o + 29 + n, (uint32_t)crc32(crc32(0, NULL, 0), d, (unsigned)n)); le32enc(o + 33 + n, (uint32_t)n);
	le64enc(o + 16, 37 + n); return 37 + n;
}
static uint8_t nsilo[20000];
/* write the silo of r again with another header or body; adj is added to the recorded length of the body */
static void rewrite(const struct rec *r, const char *hdr, const uint8_t *body, size_t n, long adj)
{
	char b[64]; size_t o = 0, sn; uint8_t *d; silo_path(b, sizeof b, r->silo); d = env_data(b, &sn);
	for (int i = 0; i < nR; i++) {
		struct rec *q = &R[i]; if (q->silo != r->silo) continue;
		if (q == r && hdr) o += mkmember(nsilo + o, hdr, strlen(hdr)); else { memcpy(nsilo + o, d + q->off, q->hlen); o += q->hlen; }
		size_t bo = o;
		if (q == r && body) o += mkmember(nsilo + o, body, n); else { memcpy(nsilo + o, d + q->off + q->hlen, q->bl); o += q->bl; }
		if (q == r) le64enc(nsilo + bo + 16, le64dec(nsilo + bo + 16) + (uint64_t)adj);
		memcpy(nsilo + o, crlf_member, 24); o += 24;
	}
	env_mkfile(b, nsilo, o);
}
static int reported(int r) { size_t n; const char *o = env_out(&n); return r != 0 || strstr(o, "ERROR") != NULL || strstr(o, "Left on pending") != NULL; }
static int audit_(void)
{
	char b[64]; const char *a[16]; int k = 0; a[k++] = "audit";
	if (sym_bool()) { int rev = sym_bool(); for (int i = 0; i < 12; i++) { static char nm[12][64]; int s = rev ? 11 - i : i; silo_path(b, sizeof b, (unsigned)s); if (env_exists(b)) { strcpy(nm[s], b); a[k++] = nm[s]; } } }
	a[k] = NULL; return cliv(a);
}
static void popul(void)
{
	arch_init((uint64_t)sym_arg("max", 2700)); env_z_rle = 1;
	static const int dig[] = { 0, 8, 24 }; pop_share(dig[sym_pick((uint64_t)sym_arg("modes", 1))]);
	pop_list((int)sym_pick((uint64_t)sym_arg("lists", NPOP)), (int)sym_arg("sym", 0));
	arch_check("");
}
/* nothing is wrong: audit does not say so */
void h_audit_good(void)
{
	popul();
	if (sym_bool()) sym_need(cli("housekeeping") == 0, "C07", "housekeeping fails");
	int r = audit_(); size_t n; const char *o = env_out(&n);
	sym_assert(r == 0, "C10", "audit of an undamaged archive fails");
	sym_assert(strstr(o, "ERROR") == NULL && strstr(o, "Left") == NULL, "C10", "audit of an undamaged archive reports an error");
	/* every silo is examined, every record in it counted */
	int good = 0, silos = 0, v; for (const char *p = o; *p; ) { const char *e = strchr(p, '\n'); if (!strncmp(p, "Audit silo ", 11)) silos++; if (strstr(p, " good ") && strstr(p, " good ") < e && p[0] >= '0' && p[0] <= '9') { for (v = 0; *p >= '0' && *p <= '9'; p++) v = v * 10 + *p - '0'; good += v; } if (!e) break; p = e + 1; }
	sym_assert(silos == arch_nsilo, "C10", "audit does not examine every silo once");
	sym_assert(good == nR, "C10", "audit does not examine every record");
	if (arch_nsilo > 2) sym_reach("several silos");
}
/* explicit IDs of metadata are accepted when asked to */
void h_audit_forced(void)
{
	static uint8_t m[2500]; char id[90]; static const char *f[] = { "0123456789abcdef0123456789abcdef", HX_PREFIX "00000000000000000000000000000000" };
	arch_init(2700); env_z_rle = 1; pop_add(0, 3, 0);
	size_t n = sym_bool() ? 60 : 2500; pop_fill(m, n, 0, 77, 0); const char *fid = f[sym_pick(2)];
	int r = store_(m, n, (const char *[]){ "store", "-t", "metadata", "-m", "text/meta", "-r", P_[0].id, "-i", fid, NULL }, id);
	sym_need(r == 0, "C29", "metadata with an explicit ID is not stored");
	r = cli("audit", "-i", "ignore-metadata-record-id"); size_t on;
	sym_assert(r == 0 && strstr(env_out(&on), "ERROR") == NULL, "C10", "audit reports an explicit metadata ID although it should be ignored");
	r = cli("audit");
	sym_assert(reported(r), "C10", "audit does not report a metadata ID that is not the one prescribed");
}
/* change one thing in one record so that it disagrees with the rest */
static const char *what;
static char nh[1400]; static uint8_t nb[6000];
static int chg_field(const struct rec *r, const char *name, int lead, int hex, int del)
{
	size_t nl = strlen(name); char *p; strcpy(nh, r->hdr);
	for (p = nh; ; ) { char *e = strstr(p, "\r\n"); if (!e || e == p) return 0; if (!strncmp(p, name, nl) && p[nl] == ':') break; p = e + 2; }
	char *v = p + nl + 2, *e = strstr(v, "\r\n");
	if (del) { memmove(p, e + 2, strlen(e + 2) + 1); return 1; }
	v += lead; if (hex) e = v + (hex < e - v ? hex : e - v);
	size_t l = (size_t)(e - v), at = l > 2 ? (size_t)(sym_pick(3) * (l - 1) / 2) : (size_t)sym_pick(l);
	unsigned char c = hex ? sym_oneof("0123456789abcdef", 16) : sym_oneof("0123456789", 10);
	sym_assume(c != (unsigned char)v[at]); v[at] = (char)c;
	return 1;
}
static int damage(struct rec *r)
{
	int il = (int)arch_idbits / 4, ok = 1; size_t pl = strlen(HX_PREFIX), n = r->n; const uint8_t *b = NULL; const char *h = NULL; long adj = 0;
	switch (sym_pick(14)) {
	case 0: what = "body byte"; memcpy(nb, r->body, n); { size_t at = (size_t)(sym_pick(3) * (n - 1) / 2); unsigned char c = (unsigned char)sym_u(0, 255); sym_assume(c != nb[at]); nb[at] = c; } b = nb; break;
	case 1: what = "body shorter"; if (n < 2) return 0; memcpy(nb, r->body, n); n--; b = nb; break;
	case 2: what = "body longer"; memcpy(nb, r->body, n); nb[n++] = (uint8_t)sym_u(0, 255); b = nb; break;
	case 3: what = "Block-Digest"; ok = chg_field(r, "WARC-Block-Digest", 7, 64, 0); h = nh; break;
	case 4: what = "Content-Length"; ok = chg_field(r, "Content-Length", 0, 0, 0); h = nh; break;
	case 5: what = "Record-ID"; ok = chg_field(r, "WARC-Record-ID", 1 + (int)pl, il, 0); h = nh; break;
	case 6: what = "Payload-Digest"; ok = chg_field(r, "WARC-Payload-Digest", 7, 64, 0); h = nh; break;
	case 7: what = "Total-Length"; ok = chg_field(r, "WARC-Segment-Total-Length", 0, 0, 0); h = nh; break;
	case 8: what = "Segment-Number"; ok = chg_field(r, "WARC-Segment-Number", 0, 0, 0); h = nh; break;
	case 9: what = "Origin"; ok = chg_field(r, "WARC-Segment-Origin-ID", 1 + (int)pl, il, 0); h = nh; break;
	case 10: what = "recorded length"; adj = sym_bool() ? 1 : -1; break;
	case 11: what = "field missing"; { static const char *f[] = { "WARC-Block-Digest", "Content-Length", "WARC-Payload-Digest", "WARC-Segment-Total-Length" }; ok = chg_field(r, f[sym_pick(4)], 0, 0, 1); } h = nh; break;
	case 12: what = "body emptied"; n = 0; b = nb; break;
	case 13: what = "all zero body"; memset(nb, 0, n); b = nb; break;
	}
	if (!ok) return 0;
	rewrite(r, h, b, n, adj);
	return 1;
}
static int safe_get(int i, const char *prop) { int r = get(P_[i].id); if (r == 0) sym_assert(ngot == P_[i].n && sym_memeq(got, P_[i].b, P_[i].n), prop, "get succeeds after delivering something else than the object"); return r; }
void h_damage_audit(void)
{
	popul();
	struct rec *r = &R[sym_pick((uint64_t)nR)];
	if (!damage(r)) return;
	int a = audit_();
	sym_reach(a == CLI_ABORT ? "aborts" : "reports"); sym_reach(what);
	sym_assert(reported(a), "C10", "audit does not report the damage");
}
void h_damage_get(void)
{
	popul();
	int t = (int)sym_pick((uint64_t)nR); struct rec *r = &R[t]; if (!strcmp(r->type, "warcinfo")) return;
	struct rec old = *r; int isobj = -1; char o[65];
	for (int i = 0; i < nP; i++) if (!strcmp(bare(P_[i].id), r->id) || (originof(r, o) && !strcmp(bare(P_[i].id), o))) isobj = i;
	if (!damage(r)) return;
	if (sym_bool()) { rm_index(); if (cli("reindex") != 0) { sym_reach("reindex fails"); return; } }
	for (int i = 0; i < nP; i++) { int g = safe_get(i, "C11");
		if (i == isobj && (!strncmp(what, "body", 4) || !strncmp(what, "all", 3))) sym_assert(g != 0, "C11", "get of an object with a damaged body succeeds");
		if (i == isobj && !old.segno && !strcmp(what, "Content-Length")) sym_assert(g != 0, "C11", "get of an object with a wrong length in its header succeeds");
		if (i == isobj && old.total && !strcmp(what, "Total-Length")) sym_assert(g != 0, "C11", "get of an object with a wrong total length in its header succeeds");
		sym_reach(g == 0 ? "got" : g == CLI_ABORT ? "abort" : "refused"); }
	sym_reach(what);
}
/* segments of whole silos are missing, or exchanged with those of another object */
void h_audit_missing(void)
{
	static const char *l[] = { "01", "5", "034", "15", "002" }; char b[64], b2[64]; int k = 0, a;
	arch_init(2700); env_z_rle = 1;
	for (const char *p = l[sym_pick(5)]; *p; p++) pop_add(*p - '0', 3 + 40 * k++, 0);
	arch_check("");
	int t = (int)sym_pick((uint64_t)nR), u = (int)sym_pick((uint64_t)nR); if (!R[t].segno || !R[u].segno) return;
	silo_path(b, sizeof b, R[t].silo); silo_path(b2, sizeof b2, R[u].silo);
	if (t == u) { env_remove(b); sym_reach("missing"); }
	else { size_t n, m; uint8_t *d = env_data(b2, &m), *c = malloc(m); memcpy(c, d, m); (void)env_data(b, &n); if (n == m && !memcmp(env_data(b, &n), c, n)) return; env_mkfile(b, c, m); sym_reach("replaced"); }
	a = audit_(); sym_assert(reported(a), "C10", "audit does not report missing segments");
	for (int i = 0; i < nP; i++) safe_get(i, "C11");
}
/* any byte of a silo is changed to anything */
void h_damage_raw(void)
{
	char b[64]; size_t n; popul();
	int s = (int)sym_pick((uint64_t)arch_nsilo); silo_path(b, sizeof b, (unsigned)s); uint8_t *d = env_data(b, &n);
	size_t at = 0; int rr = -1;	/* not in the middle of long texts */
	for (int i = 0; i < nR; i++) if (R[i].silo == (unsigned)s && strcmp(R[i].type, "warcinfo")) rr = i;
	if (rr < 0) return;
	struct rec *q = &R[rr];
	switch (sym_pick(7)) {
	case 0: at = q->off + sym_pick(29); break;			/* header member: gzip header, block header */
	case 1: at = q->off + q->hlen - 1 - sym_pick(12); break;	/* its end */
	case 2: at = q->off + q->hlen + sym_pick(29); break;		/* body member */
	case 3: at = q->off + q->hlen + q->bl - 1 - sym_pick(14); break;
	case 4: at = q->off + q->hlen + q->bl + sym_pick(24); break;	/* CRLF */
	case 5: at = q->off + 29 + 8 * sym_pick((q->hlen - 29) / 8); break;	/* header text */
	case 6: at = q->off + q->hlen + 29 + 23 * sym_pick((q->bl - 29) / 23 + 1); break;
	}
	if (at >= n) return;
	uint8_t c = (uint8_t)sym_u(0, 255); sym_assume(c != d[at]); d[at] = c;
	for (int i = 0; i < nP; i++) sym_reach(safe_get(i, "C11") == 0 ? "got" : "not got");
}
/* the silo is cut off anywhere */
/* get -z of whatever is left: all of it or failure */
static void safe_getz(int i)
{
	uint8_t *o; size_t on, used; int r = getz(P_[i].id);
	if (r) return;
	int ok = env_gunzip(got, ngot, &o, &on, &used);
	sym_assert(ok && used == ngot && on == P_[i].n && sym_memeq(o, P_[i].b, on), "C11,C12", "get -z succeeds, but does not deliver the object");
}
void h_damage_cut(void)
{
	char b[64]; size_t n; popul();
	int s = (int)sym_pick((uint64_t)arch_nsilo); silo_path(b, sizeof b, (unsigned)s); (void)env_data(b, &n);
	size_t step = (size_t)sym_arg("step", 17); env_truncate(b, (size_t)sym_pick(n / step) * step + (size_t)sym_arg("phase", 3));
	for (int i = 0; i < nP; i++) sym_reach(safe_get(i, "C11") == 0 ? "got" : "not got");
	for (int i = 0; i < nP; i++) safe_getz(i);
	int a = audit_(); if (a == 0) sym_reach("audit ends");
}
/* one index entry is damaged */
void h_damage_index(void)
{
	popul(); size_t n, off; uint8_t *d;
	int sorted = sym_bool(); if (sorted) sym_need(cli("housekeeping") == 0, "C07", "housekeeping fails");
	d = env_data(sorted ? "/s/index.sorted" : "/s/index.appendix", &n); off = sorted ? (size_t)8 << d[2] : 0;
	d += off + 32 * sym_pick((n - off) / 32);
	switch (sym_pick(6)) {
	case 0: { int k = (int)sym_pick(12); uint8_t c = (uint8_t)sym_u(0, 255); sym_assume(c != d[k]); d[k] = c; break; }
	case 1: { int k = (int)sym_pick(2) * 3; uint8_t c = (uint8_t)sym_u(0, 255); sym_assume(c != d[12 + k]); d[12 + k] = c; break; }
	case 2: { static const uint32_t v[] = { 0, 1, 2, 3, 100, 9999, 0xffffffff }; be32enc(d + 16, v[sym_pick(7)]); break; }
	case 3: { be64enc(d + 20, R[sym_pick((uint64_t)nR)].off); break; }
	case 4: { static const int v[] = { 0, 1, 10, 24, 300, 5000, 1000000 }; be64enc(d + 20, be64dec(d + 20) + (uint64_t)v[sym_pick(7)]); break; }
	case 5: { int k = (int)sym_pick(4); uint8_t c = (uint8_t)sym_u(0, 255); sym_assume(c != d[28 + k]); d[28 + k] = c; break; }
	}
	for (int i = 0; i < nP; i++) sym_reach(safe_get(i, "C11") == 0 ? "got" : "not got");
}
