/* C27: rebuild */
#include "hx_pop.h"
static struct rec O_[MAXREC]; static int nO;
/* header text without the fields which may differ */
static char *hdr_strip(const char *h)
{
	char *o = malloc(strlen(h) + 1), *q = o; const char *p = h;
	while (*p) {
		const char *e = strstr(p, "\r\n"); if (!e) { strcpy(q, p); return o; }
		size_t l = (size_t)(e - p) + 2;
		if (strncmp(p, "z:", 2) && strncasecmp(p, "Content-Length-GZIP:", 20)) { memcpy(q, p, l); q += l; }
		p = e + 2;
	}
	*q = 0; return o;
}
/* records of the rebuilt silo s are those of O_[from..] */
static void same_silo(unsigned s, const char *suffix)
{
	char b[80], f[40]; size_t n; silo_path(b, 64, s); snprintf(f, sizeof f, arch_base, s); strcat(b, suffix);
	const uint8_t *d = env_data(b, &n);
	sym_assert(d != NULL, "C27", "rebuild does not write a new file"); if (!d) return;
	nR = 0; arch_bad = 0; arch_why = NULL; silo_walk(d, n, s, f);
	sym_assert(!arch_bad, "C27", arch_why ? arch_why : "?"); if (arch_bad) return;
	int k = 0;
	for (int i = 0; i < nO; i++) if (O_[i].silo == s) {
		sym_assert(k < nR, "C27", "a record is missing after rebuild"); if (k >= nR) return;
		char *x = hdr_strip(O_[i].hdr), *y = hdr_strip(R[k].hdr);
		sym_assert(strlen(x) == strlen(y) && sym_memeq(x, y, strlen(x)), "C27", "rebuild changes a header"); free(x); free(y);
		sym_assert(O_[i].n == R[k].n && sym_memeq(O_[i].body, R[k].body, R[k].n), "C27", "rebuild changes a body");
		free(R[k].hdr); free(R[k].body); k++;
	}
	sym_assert(k == nR, "C27", "rebuild adds a record"); sym_reach("compared");
}
static void keep_originals(void) { arch_read(arch_limit); sym_need(!arch_bad, "C01,C03,C05", arch_why ? arch_why : "?"); memcpy(O_, R, sizeof O_); nO = nR; }
static void rebuilt(int only, struct snaps *sn, const char *suffix)
{
	for (int i = 0; i < sn->n; i++) { size_t n; uint8_t *d = env_data(sn->s[i].name, &n); sym_assert(d && n == sn->s[i].n && !memcmp(d, sn->s[i].d, n), "C27,C04", "rebuild changes a file of the archive"); }
	int want = 0; for (int s = 0; s < arch_limit; s++) { char b[64]; silo_path(b, sizeof b, (unsigned)s); if (env_exists(b) && (only < 0 || s == only)) { want++; same_silo((unsigned)s, suffix); } }
	int files = -sn->n; for (int i = 0; i < env_nfiles(); i++) { const char *p = env_fname(i); files += p && !strncmp(p, "/s/", 3); }
	sym_assert(files == want, "C27,C04", "rebuild leaves other files behind");
}
void h_rebuild(void)
{
	static struct snaps sn; char b[80]; arch_limit = 24;
	arch_init((uint64_t[]){ 1900, 9000 }[sym_pick(2)]); env_z_rle = sym_bool(); env_z_stored = sym_bool();
	pop_list((int)((2 + sym_pick((uint64_t)sym_arg("lists", NPOP))) % NPOP), 1);
	env_z_stored = sym_bool();	/* may be compressed otherwise when rebuilt */
	if (sym_bool()) env_pagesize = (int[]){ 64, 100 }[sym_pick(2)];
	keep_originals(); snap_take(&sn);
	int mode = (int)sym_pick(3), r, only = mode ? (int)sym_pick((uint64_t)arch_nsilo) : -1; silo_path(b, sizeof b, (unsigned)(only < 0 ? 0 : only));
	r = only < 0 ? cli("rebuild") : cli("rebuild", b);
	sym_assert(r == 0, "C27", "rebuild fails"); if (r) return;
	rebuilt(only, &sn, "_");
	if (mode == 2) { snap_take(&sn); strcat(b, "_"); r = cli("rebuild", b); sym_assert(r == 0, "C27", "rebuild of a rebuilt silo fails"); if (!r) rebuilt(only, &sn, "__"); }
}
/* bodies and files around what is read and decompressed at once */
void h_rebuild_big(void)
{
	static struct snaps sn; static uint8_t x[70000]; char id[90]; int ps = 64, big = ps * 16, comp = sym_bool();
	static const long len[] = { -1, 0, 1, -9, 9 };
	arch_init(200000); env_z_rle = comp;
	int mul = 1 + (int)sym_pick((uint64_t)sym_arg("mul", 3)); size_t n, pre = 0;
	if (comp) n = (size_t)((long)big * mul + len[sym_pick(5)]); else { pre = sym_range(1, (uint64_t)sym_arg("pre", 60)); n = (size_t)big * (size_t)mul + 300; }
	for (size_t i = 0; i < n; i++) x[i] = (uint8_t)(comp ? 'x' : i * 7 + (i >> 8));
	x[0] = (uint8_t)sym_u(0, 255); x[n - 1] = (uint8_t)sym_u(0, 255);
	if (pre) { uint8_t p[600]; size_t l = pre * (size_t)sym_arg("step", 1); for (size_t i = 0; i < l; i++) p[i] = (uint8_t)(i * 3 + 1); sym_need(store(p, l, id) == 0, "C01", "store does not succeed"); }
	sym_need(store(x, n, id) == 0, "C01", "store does not succeed"); x[1] ^= 7; sym_need(store(x, 100, id) == 0, "C01", "store does not succeed");
	env_pagesize = ps; keep_originals(); snap_take(&sn);
	int r = cli("rebuild"); sym_assert(r == 0, "C27", "rebuild fails"); if (!r) rebuilt(-1, &sn, "_");
}
/* long incompressible bodies with pages as they are */
void h_rebuild_huge(void)
{
	static struct snaps sn; static uint8_t x[210000]; char id[90]; static const size_t len[] = { 17000, 70000, 66000, 140000, 200000 };
	arch_init(250000); size_t n = len[sym_pick((uint64_t)sym_arg("lens", 3))]; env_z_stored = sym_bool();
	for (size_t i = 0; i < n; i++) x[i] = (uint8_t)(i * 7 + (i >> 8));
	x[0] = (uint8_t)sym_u(0, 255); x[n - 1] = (uint8_t)sym_u(0, 255);
	sym_need(store(x, n, id) == 0, "C01", "store does not succeed");
	keep_originals(); snap_take(&sn);
	int r = cli("rebuild"); sym_assert(r == 0, "C27", "rebuild fails"); if (!r) rebuilt(-1, &sn, "_");
}
/* more silos than files can be open */
void h_rebuild_many(void)
{
	static struct snaps sn; char b[80]; size_t n; int m = 14;
	arch_init(1900); pop_add(0, 3, 0); keep_originals();
	silo_path(b, sizeof b, 0); uint8_t *d = env_data(b, &n); uint8_t *c = malloc(n); memcpy(c, d, n);
	for (int s = 1; s < m; s++) { silo_path(b, sizeof b, (unsigned)s); env_mkfile(b, c, n); }
	snap_take(&sn); env_maxfd = (int)sym_range(9, 12);
	int r = cli("rebuild"); env_maxfd = 0;
	sym_assert(r >= 0, "C27", "rebuild fails"); if (r) return;
	for (int s = 0; s < m; s++) { silo_path(b, 64, (unsigned)s); strcat(b, "_"); sym_assert(env_exists(b), "C27", "rebuild does not write a new file"); }
	sym_reach("many");
}
/* records of the old form: no block digest, an ID which is not that of the content; they get both */
static void gz_out(uint8_t *o, size_t *on, const void *d, size_t n)
{
	z_stream z; memset(&z, 0, sizeof z);
	if (deflateInit2(&z, 9, Z_DEFLATED, 15 + 16, 9, Z_DEFAULT_STRATEGY) != Z_OK) sym_fail("env", "harness: deflate");
	z.next_in = (void *)(uintptr_t)d; z.avail_in = (unsigned)n; z.next_out = o + *on; z.avail_out = 400000;
	if (deflate(&z, Z_FINISH) != Z_STREAM_END) sym_fail("env", "harness: deflate");
	*on += 400000 - z.avail_out; deflateEnd(&z);
}
static char *olden(const struct rec *r)
{
	char *o = malloc(strlen(r->hdr) + 200), *q = o; const char *p = r->hdr, *e;
	for (; *p; p = e) {
		e = strstr(p, "\r\n") + 2;
		if (!strncmp(p, "WARC-Block-Digest:", 18)) continue;
		if (e - p == 2) q += sprintf(q, "WARC-record-digest: sha256:%s\r\n", "0011223344556677889900112233445566778899001122334455667788990011");
		memcpy(q, p, (size_t)(e - p));
		if (!strncmp(p, "WARC-Record-ID:", 15)) q[17 + strlen(HX_PREFIX) + 3] ^= 1;
		q += e - p;
	}
	*q = 0; return o;
}
static void lower(char *p) { for (; *p && *p != ':'; p++) if (*p >= 'A' && *p <= 'Z') *p += 32; }
static char *hdr_norm(const char *h) { char *o = hdr_strip(h), *p = o; while (p && *p) { lower(p); p = strstr(p, "\r\n"); if (p) p += 2; } return o; }
void h_rebuild_old(void)
{
	static struct snaps sn; static uint8_t x[150000], y[1200000]; char b[80], id[90], f[40]; size_t on = 0;
	static const size_t len[] = { 60, 1, 1023, 1024, 1025, 3000, 8190, 8191, 8192, 8193, 8200, 9000, 20000, 66000, 140000 };
	arch_init(400000); size_t n = len[sym_pick((uint64_t)sym_arg("lens", 15))];
	env_z_rle = sym_bool(); env_z_stored = n > 30000 ? 1 : (int)sym_bool(); env_pagesize = n > 10000 ? 4096 : (int[]){ 64, 256, 4096 }[sym_pick(3)];
	for (size_t i = 0; i < n; i++) x[i] = (uint8_t)(env_z_rle ? i >> 9 : i * 7 + (i >> 8));
	x[0] = (uint8_t)sym_u(0, 255); x[n - 1] = (uint8_t)sym_u(0, 255);
	int k = (int)sym_range(1, 3), which = (int)sym_pick((uint64_t)k);	/* the old one among k */
	for (int i = 0; i < k; i++) if (i == which) sym_need(store(x, n, id) == 0, "C01", "store does not succeed"); else { uint8_t t[2000]; memset(t, 'a' + i, sizeof t); sym_need(store(t, (size_t)(50 + i * 600), id) == 0, "C01", "store does not succeed"); }
	keep_originals();
	for (int i = 0; i < nO; i++) {
		char *h = i == which + 1 || (k > 1 && sym_bool() && !strcmp(O_[i].type, "resource")) ? olden(&O_[i]) : strdup(O_[i].hdr);
		gz_out(y, &on, h, strlen(h)); gz_out(y, &on, O_[i].body, O_[i].n); gz_out(y, &on, "\r\n\r\n", 4); free(h);
	}
	silo_path(b, sizeof b, 0); env_mkfile(b, y, on); snap_take(&sn);
	int r = cli("rebuild"); sym_assert(r == 0, "C27", r == CLI_ABORT ? "rebuild aborts" : "rebuild fails"); if (r) return;
	for (int i = 0; i < nO; i++) { char *h = hdr_norm(O_[i].hdr); O_[i].hdr = h; }
	for (int i = 0; i < sn.n; i++) { size_t m; uint8_t *d = env_data(sn.s[i].name, &m); sym_assert(d && m == sn.s[i].n && !memcmp(d, sn.s[i].d, m), "C27,C04", "rebuild changes a file of the archive"); }
	strcat(b, "_"); size_t m; const uint8_t *d = env_data(b, &m); sym_need(d != NULL, "C27", "rebuild does not write a new file");
	nR = 0; arch_bad = 0; arch_why = NULL; snprintf(f, sizeof f, arch_base, 0); silo_walk(d, m, 0, f);
	sym_need(!arch_bad, "C27", arch_why ? arch_why : "?");
	sym_need(nR == nO, "C27", nR < nO ? "a record is missing after rebuild" : "rebuild adds a record");
	for (int i = 0; i < nO; i++) {
		char *h = hdr_norm(R[i].hdr);
		sym_assert(strlen(h) == strlen(O_[i].hdr) && sym_memeq(h, O_[i].hdr, strlen(h)), "C27", "a record of the old form does not get the ID and the digest of its content, or a header is changed");
		sym_assert(R[i].n == O_[i].n && sym_memeq(R[i].body, O_[i].body, R[i].n), "C27", "rebuild changes a body");
	}
	sym_reach("old form");
}
