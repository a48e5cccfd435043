/* C01 C02 C03 C04 C05 C12 C13 C14 C29: storing and getting through the command line */
#include "hx_arch.h"
static uint8_t body[8192];
/* content: kind 0 incompressible (first, middle, last byte arbitrary), kind 1 one repeated byte, kind 2 five bytes in turns (not compressible in the model) */
static void fill(uint8_t *b, size_t n, int kind, int seed)
{
	for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(kind == 1 ? 'x' : kind == 2 ? 'x' + i % 5 : (i * 7 + (i >> 8) + (size_t)seed));
	if (!kind && n) { b[0] = (uint8_t)sym_u(0, 255); if (n > 2) b[n / 2] = (uint8_t)sym_u(0, 255); b[n - 1] = (uint8_t)sym_u(0, 255); }
}
/* the object is delivered by ID, plain and gzip'ed */
static void check_get(const char *id, const uint8_t *b, size_t n, const char *ctype, int z)
{
	size_t hn; const char *h; char t[200], dig[65], w[80]; uint8_t *o; size_t on, used;
	int r = get(id);
	sym_assert(r == 0, "C01,C13,C28", "get of a stored object fails");
	if (r) return;
	sym_assert(ngot == n && sym_memeq(got, b, n), "C01,C13", "get delivers other bytes than were stored");
	h = env_out(&hn);
	sym_assert(hfield(h, "Content-Type", t, sizeof t) && !strcmp(t, ctype), "C01", "headers delivered lack the content type");
	snprintf(w, sizeof w, "%zu", n);
	sym_assert(hfield(h, "Content-Length", t, sizeof t) && !strcmp(t, w), "C01", "headers delivered lack the total length");
	env_sha_hex(b, n, dig); snprintf(w, sizeof w, "sha256:%s", dig);
	sym_assert(hfield(h, "WARC-Block-Digest", t, sizeof t) && !strcmp(t, w), "C01", "headers delivered lack the digest of the object");
	if (!z) return;
	r = getz(id);
	sym_assert(r == 0, "C12", "get -z of a stored object fails");
	if (r) return;
	r = env_gunzip(got, ngot, &o, &on, &used);
	sym_assert(r && used == ngot, "C12", "get -z does not deliver exactly one gzip member");
	sym_assert(on == n && sym_memeq(o, b, n), "C12", "get -z delivers something else than the object");
	free(o);
}
/* one object: any length of a range, read chunking, silo size */
void h_store_one(void)
{
	char id[90], id2[90], dig[65]; struct snaps s;
	uint64_t max = (uint64_t)sym_arg("max", 2700) + (uint64_t)sym_arg("maxstep", 1) * sym_pick((uint64_t)sym_arg("nmax", 1));
	arch_init(max);
	int kind = (int)sym_pick((uint64_t)sym_arg("kinds", 2));
	env_z_rle = 1;
	size_t lo = (size_t)sym_arg("lo", 1), hi = (size_t)sym_arg("hi", 40), step = (size_t)sym_arg("step", 1);
	size_t n = lo + step * sym_pick((hi - lo) / step + 1);
	static const size_t chunk[] = { 0, 1, 7, 100, 333, 1000 };
	size_t c = chunk[sym_pick((uint64_t)sym_arg("chunks", 4))]; if (c == 1 && n > 200) c = 64;
	fill(body, n, kind, 3);
	env_read_max = c;
	int r = store(body, n, id); env_read_max = 0;
	sym_assert(r == 0, "C01", "store does not succeed");
	if (r) return;
	env_sha_hex(body, n, dig); dig[arch_idbits / 4] = 0;
	sym_assert(!strncmp(id, HX_PREFIX, strlen(HX_PREFIX)) && !strcmp(bare(id), dig), "C02", "ID printed is not the digest of the content");
	arch_check("after store");
	struct rec *q = arch_find(bare(id));
	sym_assert(q != NULL && !strcmp(q->type, "resource"), "C02,C01", "no record with the ID printed");
	if (q) {
		const char *why; size_t on; uint8_t *o = object(q, &on, &why);
		sym_assert(why == NULL, "C03", why ? why : "?");
		sym_assert(on == n && sym_memeq(o, body, n), "C01,C03", "segments do not add up to the object");
		free(o);
		sym_note(1, (uint64_t)nR);
		if (q->segno) sym_reach(arch_nsilo > 2 ? "many segments" : "two segments"); else sym_reach("unsegmented");
	}
	check_get(id, body, n, "application/octet-stream", 1);
	/* again, in one piece, then in pieces after housekeeping */
	snap_take(&s);
	r = store(body, n, id2);
	sym_assert(r == 0 && !strcmp(id, id2), "C14,C02", "storing again does not report the same ID");
	sym_assert(snap_same(&s), "C14", "storing again changes silos or index, or leaves a file behind");
	r = cli("housekeeping"); sym_assert(r == 0, "C07", "housekeeping fails");
	check_get(bare(id), body, n, "application/octet-stream", 0);
	snap_take(&s); env_read_max = c ? c + 1 : 50;
	r = store(body, n, id2); env_read_max = 0;
	sym_assert(r == 0 && !strcmp(id, id2), "C14,C02", "storing again does not report the same ID");
	sym_assert(snap_same(&s), "C14", "storing again changes silos or index, or leaves a file behind");
}
/* incompressible data followed by a long run */
void h_store_sparse(void)
{
	char id[90]; static uint8_t b[200100];
	uint64_t max = (uint64_t)sym_arg("max", 3500); static const unsigned bits[] = { 256, 128, 64, 252 }; arch_idbits = bits[sym_pick(4)]; arch_init(max); env_z_rle = 1;
	size_t pre[] = { 0, max - 1000, max - 500, 2600 }, run[] = { 105000, 100, 20000, 140000, 170000, 192000 };
	size_t a = pre[sym_pick((uint64_t)sym_arg("npre", 4))], c = run[sym_pick((uint64_t)sym_arg("nrun", 4))];
	fill(b, a, 0, 1); memset(b + a, 'x', c);
	env_read_max = sym_bool() ? 0 : 9999;
	int r = store(b, a + c, id); env_read_max = 0;
	sym_assert(r == 0, "C01", "store of a highly compressible object does not succeed");
	if (r) return;
	arch_check("after store");
	for (int i = 0; i < nR; i++) if (R[i].type[0] != 0x77) { sym_note(10 + R[i].segno, R[i].n); sym_note(20, R[i].bl); sym_note(21, R[i].hlen); }
	if (nR > 2 * 1) sym_reach("segmented");
	check_get(id, b, a + c, "application/octet-stream", 1);
}
/* silos and objects larger than the megabyte of the write buffer */
void h_store_huge(void)
{
	static const uint64_t M[] = { 1048576 - 4096, 1048576 + 1, 1048576 + 300000, 2 * 1048576 + 70000 };
	uint64_t max = M[sym_range(0, (uint64_t)sym_arg("nmax", 3) - 1)]; size_t n; char id[90], id2[90]; struct snaps s;
	arch_init(max);
	switch (sym_pick(4)) {
	case 0: n = max - sym_range(0, 12) * 90; break;		/* around what fits */
	case 1: n = max + 1 + (size_t)sym_pick(2) * 500000; break;
	case 2: n = max / 2; break;
	default: n = max - 131072 - 800 + sym_pick(3) * 400; break;
	}
	uint8_t *b = malloc(n), t[40] = "a small one";
	for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + (i >> 8) + (i >> 13) * 3);
	if (sym_bool()) sym_assert(store(t, 11, id2) == 0, "C01", "store does not succeed"); else id2[0] = 0;
	env_read_max = sym_bool() ? 0 : 65000;
	int r = store(b, n, id); env_read_max = 0;
	sym_assert(r == 0, "C01", "store of a huge object does not succeed");
	if (r) return;
	if (!id2[0]) sym_assert(store(t, 11, id2) == 0, "C01", "store does not succeed");
	arch_check("after store");
	if (nR > 5) sym_reach("segmented"); else sym_reach("one or two silos");
	check_get(id, b, n, "application/octet-stream", 1); check_get(id2, t, 11, "application/octet-stream", 0);
	snap_take(&s); r = store(b, n, id2);
	sym_assert(r == 0 && !strcmp(id, id2), "C14,C02", "storing again does not report the same ID");
	sym_assert(snap_same(&s), "C14", "storing again changes silos or index, or leaves a file behind");
}
/* several objects, whose IDs, segments and warcinfos may share prefixes or be equal */
struct obj { uint8_t *b; size_t n; char id[90]; const char *ctype; int meta; };
static struct obj O[8]; static int nO;
static int refused(const char *id)
{
	size_t en; int r = get(id); const char *e = env_errtxt(&en);
	sym_assert(r != CLI_ABORT, "C13,C15", "get of an ID that is no object aborts");
	sym_assert(r != 0, "C13,C11", "get of an ID that is no object succeeds");
	sym_assert(r == CLI_ABORT || (en > 2 && ngot == 0), "C13", "ID refused without a message");
	return r == 1;
}
static void check_all(int z)
{
	arch_check("");
	for (int i = 0; i < nO; i++) check_get(O[i].id, O[i].b, O[i].n, O[i].ctype, z);
	for (int i = 0; i < nR; i++) {
		if (strcmp(R[i].type, "warcinfo") && strcmp(R[i].type, "continuation")) continue;
		int isobj = 0; for (int k = 0; k < nO; k++) if (!strcmp(bare(O[k].id), R[i].id)) isobj = 1;
		if (!isobj) { sym_assert(refused(R[i].id), "C13", "ID of a warcinfo or continuation is not refused"); sym_reach("refused"); }
	}
	char no[40]; memset(no, '0', 32); no[32] = 0; if (nO) memcpy(no, bare(O[0].id), 31); no[31] = no[31] == '7' ? '8' : '7';
	if (!arch_find(no)) sym_assert(refused(no), "C13", "unknown ID is not refused");
}
static int add(const uint8_t *b, size_t n, const char *ref, const char *iforced)
{
	struct obj *o = &O[nO]; int r; struct snaps s; char w[80], dig[65]; snap_take(&s);
	o->b = malloc(n); memcpy(o->b, b, n); o->n = n; o->meta = ref != NULL; o->ctype = ref ? "text/meta" : "application/octet-stream";
	if (ref && iforced) r = store_(b, n, (const char *[]){ "store", "-t", "metadata", "-m", "text/meta", "-r", ref, "-i", iforced, NULL }, o->id);
	else r = ref ? store_meta(b, n, ref, o->id) : store(b, n, o->id);
	sym_assert(r == 0, "C01,C13,C29", "store does not succeed");
	if (r) return 0;
	sym_assert(snap_grown(&s), "C04", "store changes existing contents of a silo");
	int ndig = (int)arch_idbits / 4;
	if (iforced) { strcpy(w, bare(iforced)); w[ndig] = 0; }
	else if (ref) { char t[200], d2[65]; env_sha_hex(b, n, d2); snprintf(t, sizeof t, "<%s%s>\n%s\n", HX_PREFIX, bare(ref), d2); env_sha_hex(t, strlen(t), dig); memcpy(w, dig, (size_t)ndig); w[ndig] = 0; }
	else { env_sha_hex(b, n, dig); memcpy(w, dig, (size_t)ndig); w[ndig] = 0; }
	sym_assert(!strncmp(o->id, HX_PREFIX, strlen(HX_PREFIX)) && !strcmp(bare(o->id), w), "C02,C29", "ID printed is not the one prescribed");
	for (int i = 0; i < nO; i++) if (!strcmp(O[i].id, o->id)) { sym_assert(snap_same(&s), "C14", "storing existing content changes the archive"); sym_reach("again"); return 1; }
	nO++;
	return 1;
}
static void share_prefix(int digits)
{
	static const char *p = "c0ffee00badc0de5feedf00d5ca1ab1e"; char t[40];
	memcpy(t, p, (size_t)digits); t[digits] = 0;
	for (int i = 0; i < 60; i++) env_sha_set_prefix(i, t);
}
void h_store_many(void)
{
	int nops = (int)sym_arg("ops", 3); uint64_t max = (uint64_t)sym_arg("max", 2700);
	arch_init(max); env_z_rle = 1;
	static const int dig[] = { 0, 24, 8 }; share_prefix(dig[sym_pick((uint64_t)sym_arg("modes", 2))]);
	int hk = (int)sym_pick((uint64_t)nops);
	static uint8_t b[8000];
	for (int k = 0; k < nops; k++) {
		const char *ref = NULL; size_t n = 0; int op = (int)sym_pick(7);
		if (hk && k == hk) sym_assert(cli("housekeeping") == 0, "C07", "housekeeping fails");
		arch_read(12);
		switch (op) {
		case 0: n = 100; fill(b, n, 0, 0); break;
		case 1: n = 2500; fill(b, n, 0, 9); break;			/* segmented */
		case 2: n = (size_t)sym_arg("same", 5000); fill(b, n, 2, 0); break;			/* identical segments */
		case 3: n = 60; fill(b, n, 1, 0); if (nO == 0) return; ref = O[sym_pick((uint64_t)nO)].id; break;	/* metadata */
		case 4: case 5: for (int i = 0; i < nR && !n; i++) if (!strcmp(R[i].type, op == 4 ? "warcinfo" : "continuation")) { n = R[i].n; memcpy(b, R[i].body, n); } if (!n) return; break;
		case 6: n = 2500; fill(b, n, 0, 9); if (nO == 0) return; ref = bare(O[0].id); break;	/* segmented metadata */
		}
		if (!add(b, n, ref, NULL)) return;
	}
	check_all(1);

	for (int i = 0; i < nR; i++) for (int k = 0; k < i; k++) if (R[i].segno > 1 && R[k].segno > 1 && R[i].segno != R[k].segno && !strcmp(R[i].id, R[k].id)) sym_reach("identical segments");
	if (nO > 2) sym_reach("three objects");
}
