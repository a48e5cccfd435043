/* C28: ID spelling (pure part), C02: content -> ID */
#include "hx.h"
void h_ident_valid(void)
{
	hx_init();
	struct aardwarc *aa = hx_open(64, 0, 0);
	const char *pfx = aa->prefix; size_t pl = strlen(pfx), n = 0, hexn;
	char s[64]; const char *nid = NULL;
	int form = (int)sym_pick(3);
	if (form == 1) {	/* prefix, one character of it arbitrary */
		memcpy(s, pfx, pl); n = pl;
		size_t k = sym_pick(pl); s[k] = (char)sym_u(1, 255);
	} else if (form == 2) { memcpy(s, pfx, pl); n = pl; for (size_t i = 0; i < n; i++) if (s[i] >= 'a' && s[i] <= 'z') s[i] -= 32; }
	hexn = sym_range(0, 17);
	size_t w = (size_t)sym_arg("w", 3), at = 0;
	memcpy(s + n, "0aF9bB7c4Dd2Ee15f", hexn);
	if (w < hexn) at = sym_pick(hexn - w + 1); else w = hexn;
	sym_bytes_range(s + n + at, w, 1, 255);
	s[n + hexn] = 0;
	const char *err = IDX_Valid_Id(aa, s, &nid), *err2 = IDX_Valid_Id(aa, s, NULL);
	/* oracle */
	int ok = 1; const char *q = s;
	if (form) { int m = 1; for (size_t i = 0; i < pl; i++) { int a = s[i], b = pfx[i]; if (a >= 'A' && a <= 'Z') a += 32; if (b >= 'A' && b <= 'Z') b += 32; m &= a == b; } if (m) q = s + pl; }
	size_t l = strlen(q);
	if (l != 16) ok = 0;
	for (size_t i = 0; i < l; i++) ok &= hx_hex(q[i]);
	sym_assert((err == NULL) == ok, "C28", "ID accepted/refused wrongly");
	sym_assert((err2 == NULL) == ok, "C28", "ID accepted/refused wrongly (no result wanted)");
	if (ok) { sym_assert(nid == q, "C28", "wrong normalised ID"); sym_reach("accepted"); }
	else { sym_assert(err[0] != 0, "C28", "empty error message"); sym_reach("refused"); }
}
/* Digest2Ident makes an acceptable full URI of a digest */
void h_ident_digest(void)
{
	hx_init();
	unsigned bits = 64 + 4 * (unsigned)sym_pick(49);
	struct aardwarc *aa = hx_open(bits, 0, 0);
	unsigned n = bits / 4; char d[80]; const char *nid;
	for (unsigned i = 0; i < n; i++) d[i] = sym_oneof("0123456789abcdef", 16);
	d[n] = 0;
	sym_assert(aa->id_size == n, "C18,C28", "configured ID length not used");
	char *id = Digest2Ident(aa, d);
	sym_assert(strlen(id) == strlen(aa->prefix) + n && !memcmp(id, aa->prefix, strlen(aa->prefix)) && sym_memeq(id + strlen(aa->prefix), d, n), "C28", "full ID is not prefix and digest");
	sym_assert(IDX_Valid_Id(aa, id, &nid) == NULL && nid == id + strlen(aa->prefix), "C28", "full ID not accepted");
	free(id);
}
/* C02: Ident_Create over all record types */
void h_ident_create(void)
{
	hx_init();
	unsigned bits = 64 + 64 * (unsigned)sym_pick(4);
	struct aardwarc *aa = hx_open(bits, 0, 0);
	struct header *h = Header_New(aa); char d[65], id[65], want[65]; const char *types[] = { "resource", "continuation", "warcinfo", "metadata" };
	int t = (int)sym_pick(4);
	for (int i = 0; i < 64; i++) d[i] = sym_oneof("0123456789abcdef", 16);
	d[64] = 0;
	Header_Set(h, "WARC-Type", "%s", types[t]);
	char ref[24]; memcpy(ref, "<http://x.y/0123456789>", 24);
	for (int i = 0; i < 4; i++) ref[13 + i] = sym_oneof("0123456789abcdef", 16);
	if (t == 3 || sym_bool()) Header_Set(h, "WARC-Refers-To", "%s", ref);
	if (sym_bool()) Header_Set_Date(h);
	Ident_Create(aa, h, d, id);
	if (t < 3) memcpy(want, d, 65);
	else { char b[200]; size_t n = strlen(ref); memcpy(b, ref, n); b[n++] = '\n'; memcpy(b + n, d, 64); n += 64; b[n++] = '\n'; env_sha_hex(b, n, want); }
	sym_assert(strlen(id) == aa->id_size && sym_memeq(id, want, aa->id_size), "C02", "ID is not the prescribed digest");
	Ident_Set(aa, h, d, NULL);
	sym_assert(!strcmp(Header_Get_Id(h), id), "C02", "header does not carry the ID");
	/* forced ID, any spelling */
	char f[90]; int form = (int)sym_pick(3); size_t pl = form ? strlen(aa->prefix) : 0;
	memcpy(f, aa->prefix, pl); if (form == 2) for (size_t i = 0; i < pl; i++) if (f[i] >= 'a' && f[i] <= 'z') f[i] -= 32;
	memcpy(f + pl, d, 64); f[pl + aa->id_size] = 0;
	Ident_Set(aa, h, d, f);
	sym_assert(strlen(Header_Get_Id(h)) == aa->id_size && !strcmp(Header_Get_Id(h), f + pl), "C28,C29", "forced ID given with prefix is not the ID used");
	Header_Destroy(&h);
}
