/* CLI-level harness helpers: configuration, running a command, independent reading of an archive */
#ifndef HX_ARCH_H
#define HX_ARCH_H
#include "hx.h"
#include <sys/endian.h>
#include <stdarg.h>
int aardwarc_main(int argc, char **argv);
extern int optind, optreset;
#define DIGITS 32	/* default ID length in these harnesses */
static unsigned arch_idbits = 128; static uint64_t arch_max; static const char *arch_base = "%08u.warc.gz"; static const char *arch_extra = "", *arch_mm = "";
static void arch_cfg(uint64_t maxsize)
{
	char b[900]; int n;
	arch_max = maxsize;
	n = snprintf(b, sizeof b, "WARC-Record-ID:\n\t" HX_PREFIX " %u\nsilo.directory:\n\t/s/\nsilo.max_size:\n\t%llu\nsilo.basename:\n\t%s\nindex.sort_size:\n\t4096\n"
	    "resource.mime-types:\n\tapplication/octet-stream\n\ttext/plain\nmetadata.mime-types:\n\ttext/meta\n%swarcinfo.body:\n\tisPartOf: x\n%s",
	    arch_idbits, (unsigned long long)maxsize, arch_base, arch_mm, arch_extra);
	env_mkfile("/cfg", b, (size_t)n);
}
static void arch_init(uint64_t maxsize) { hx_init(); arch_cfg(maxsize); }
struct cli_ { int argc; char **argv; int ret; };
static void cli_fn(void *p) { struct cli_ *c = p; c->ret = aardwarc_main(c->argc, c->argv); }
#define CLI_ABORT (-1)
#define CLI_CRASH (-2)
/* run "aardwarc -c /cfg args..." to its end: the exit status, CLI_ABORT or CLI_CRASH */
static int cliv(const char **args)
{
	char *argv[24]; struct cli_ c; int r;
	c.argc = 0; argv[c.argc++] = (char *)"aardwarc"; argv[c.argc++] = (char *)"-c"; argv[c.argc++] = (char *)"/cfg";
	while (*args) argv[c.argc++] = (char *)(uintptr_t)*args++;
	argv[c.argc] = NULL; c.argv = argv; c.ret = 0;
	optind = 1; optreset = 1; env_clear_out(); sym_process(0); env_install_vas();
	r = sym_catch(cli_fn, &c);
	env_end_streams(r == 0 || r >= THROW_EXIT); env_reset_fds();
	if (r == 0) return c.ret & 255;
	if (r == THROW_ABORT) return CLI_ABORT;
	if (r == THROW_CRASH) return CLI_CRASH;
	return r - THROW_EXIT;
}
#define cli(...) cliv((const char *[]){ __VA_ARGS__, NULL })
/* store: exit status; the ID printed (without newline) goes to id */
static int store_(const void *p, size_t n, const char **args, char *id)
{
	size_t on; env_set_stdin(p, n);
	int r = cliv(args); const char *o = env_out(&on);
	id[0] = 0;
	if (r == 0) {
		sym_need(on > 1 && on < 90 && o[on - 1] == '\n', "C01", "store does not print one ID");
		memcpy(id, o, on - 1); id[on - 1] = 0;
	}
	return r;
}
#define store(p, n, id) store_(p, n, (const char *[]){ "store", NULL }, id)
#define store_meta(p, n, ref, id) store_(p, n, (const char *[]){ "store", "-t", "metadata", "-m", "text/meta", "-r", ref, NULL }, id)

/* ---- records as found on disk ---- */
#define MAXREC 48
struct rec {
	unsigned silo; size_t off, hlen, bl; char id[65]; char type[16], ctype[40]; uint8_t *body; size_t n; char *hdr;
	int segno; char origin[100], next[9], refers[100]; char pdig[65]; long total; char bdig[65]; char fname[40];
};
static struct rec R[MAXREC]; static int nR; static int arch_nsilo; static int arch_bad, arch_limit = 12; static const char *arch_why;
#define BAD(why) do { arch_bad = 1; if (!arch_why) arch_why = why; return; } while (0)
static const char *hfield(const char *h, const char *name, char *out, size_t max)
{
	size_t nl = strlen(name); const char *p = h;
	while (*p) {
		const char *e = strstr(p, "\r\n"); if (!e) return NULL;
		if ((size_t)(e - p) > nl + 1 && !strncasecmp(p, name, nl) && p[nl] == ':' && p[nl + 1] == ' ') {
			size_t l = (size_t)(e - p) - nl - 2; if (l >= max) return NULL;
			memcpy(out, p + nl + 2, l); out[l] = 0; return out; }
		p = e + 2;
	}
	return NULL;
}
static long num(const char *s) { long v = 0; if (!*s) return -1; for (; *s; s++) { if (*s < '0' || *s > '9') return -1; v = v * 10 + *s - '0'; } return v; }
static const uint8_t crlf_member[24] = { 0x1f, 0x8b, 0x08, 0x00, 0x20, 0x01, 0x19, 0x66, 0x02, 0x03, 0xe3, 0xe5, 0xe2, 0xe5, 0x02, 0x00, 0x44, 0x15, 0xc2, 0x8b, 0x04, 0x00, 0x00, 0x00 };
static size_t arch_hs, arch_hl; static unsigned arch_hsilo;	/* silo with a hole, inside a body */
/* length of the self-delimiting member at p, 0 if there is none */
static size_t member(const uint8_t *p, size_t n)
{
	static const uint8_t x[6] = { 12, 0, 'A', 'a', 8, 0 };
	if (n < 24 || p[0] != 0x1f || p[1] != 0x8b || p[2] != 8 || p[3] != 4 || memcmp(p + 10, x, 6)) return 0;
	uint64_t l = le64dec(p + 16);
	return l <= n ? (size_t)l : 0;
}
static void silo_walk(const uint8_t *d, size_t n, unsigned silo, const char *fname)
{
	size_t pos = 0; char t[300]; int first = 1;
	while (pos < n) {
		if (nR >= MAXREC) sym_fail("env", "harness: too many records");
		struct rec *r = &R[nR]; uint8_t *o; size_t on, used, m; memset(r, 0, sizeof *r);
		r->silo = silo; r->off = pos + (arch_hl && silo == arch_hsilo && pos >= arch_hs ? arch_hl : 0);
		m = member(d + pos, n - pos); if (!m) BAD("header member not self-delimiting");
		if (!env_gunzip(d + pos, m, &o, &on, &used) || used != m) BAD("header member is not one gzip member of its recorded length");
		r->hlen = m; pos += m;
		r->hdr = malloc(on + 1); memcpy(r->hdr, o, on); r->hdr[on] = 0; free(o);
		if (on < 4 || strncmp(r->hdr, "WARC/1.1\r\n", 10) || strcmp(r->hdr + on - 4, "\r\n\r\n")) BAD("not a WARC header");
		if (arch_hl && silo == arch_hsilo && n - pos > 24 && le64dec(d + pos + 16) > arch_hl) m = le64dec(d + pos + 16) - arch_hl; else
		m = member(d + pos, n - pos);
		if (!m || m > n - pos) BAD("body member not self-delimiting");
		if (!env_gunzip(d + pos, m, &r->body, &r->n, &used) || used != m) BAD("body member is not one gzip member of its recorded length");
		r->bl = m; pos += m;
		if (n - pos < 24 || memcmp(d + pos, crlf_member, 24)) BAD("record does not end with the CRLF member");
		pos += 24;
		/* header fields */
		const char *v = hfield(r->hdr, "WARC-Record-ID", t, sizeof t); size_t pl = strlen(HX_PREFIX), il = arch_idbits / 4;
		if (!v || strlen(v) != pl + il + 2 || v[0] != '<' || memcmp(v + 1, HX_PREFIX, pl) || v[pl + il + 1] != '>') BAD("record ID");
		memcpy(r->id, v + 1 + pl, il); r->id[il] = 0;
		if (!hfield(r->hdr, "WARC-Type", r->type, sizeof r->type)) BAD("no type");
		if (!hfield(r->hdr, "Content-Type", r->ctype, sizeof r->ctype)) BAD("no content type");
		if (!hfield(r->hdr, "WARC-Date", t, sizeof t)) BAD("no date");
		v = hfield(r->hdr, "Content-Length", t, sizeof t); if (!v || num(v) != (long)r->n) BAD("Content-Length is not the length of the body");
		v = hfield(r->hdr, "WARC-Block-Digest", t, sizeof t); env_sha_hex(r->body, r->n, r->bdig);
		if (!v || strncmp(v, "sha256:", 7) || strcmp(v + 7, r->bdig)) BAD("WARC-Block-Digest is not the digest of the body");
		v = hfield(r->hdr, "WARC-Segment-Number", t, sizeof t); r->segno = v ? (int)num(v) : 0; if (v && r->segno < 1) BAD("segment number");
		v = hfield(r->hdr, "WARC-Segment-Total-Length", t, sizeof t); r->total = v ? num(v) : 0; if (v && r->total < 1) BAD("total length");
		v = hfield(r->hdr, "WARC-Payload-Digest", t, sizeof t); if (v) { if (strncmp(v, "sha256:", 7) || strlen(v) != 71) BAD("payload digest"); strcpy(r->pdig, v + 7); }
		(void)hfield(r->hdr, "WARC-Segment-Origin-ID", r->origin, sizeof r->origin);
		(void)hfield(r->hdr, "WARC-Refers-To", r->refers, sizeof r->refers);
		(void)hfield(r->hdr, "WARC-Filename", r->fname, sizeof r->fname);
		if (first != !strcmp(r->type, "warcinfo")) BAD("first record is not a warcinfo, or a later one is");
		if (first && strcmp(r->fname, fname)) BAD("warcinfo does not name the silo");
		first = 0; strcpy(r->next, "00000000"); nR++;
	}
	if (first) BAD("empty silo");
}
static void silo_path(char *b, size_t n, unsigned no) { char f[40]; snprintf(f, sizeof f, arch_base, no); snprintf(b, n, "/s/%u/%s%s", no >= 100 ? 1 : 0, no >= 100 ? (no < 200 ? "01/" : "02/") : "", f); }
/* read all silos below `limit`; arch_bad says whether something is wrong */
static void arch_read(int limit)
{
	char b[64], f[40]; size_t n;
	nR = 0; arch_bad = 0; arch_why = NULL; arch_nsilo = 0;
	for (int s = 0; s < limit; s++) {
		silo_path(b, sizeof b, (unsigned)s); if (!env_exists(b)) continue;
		arch_nsilo++; const uint8_t *d = env_data(b, &n); snprintf(f, sizeof f, arch_base, (unsigned)s);
		silo_walk(d, n, (unsigned)s, f);
		if (arch_bad) return;
	}
}
static int arch_holds(void) { int k = 0; for (int i = 0; i < env_nfiles(); i++) { const char *p = env_fname(i); if (p && strlen(p) > 5 && !strcmp(p + strlen(p) - 5, ".hold")) k++; } return k; }
static void arch_rmholds(void) { for (int i = 0; i < env_nfiles(); i++) { const char *p = env_fname(i); if (p && strlen(p) > 5 && !strcmp(p + strlen(p) - 5, ".hold")) env_remove(p); } }
static struct rec *arch_find(const char *id) { for (int i = 0; i < nR; i++) if (!strcmp(R[i].id, id)) return &R[i]; return NULL; }
/* segments: fill in the continuation prefixes and check the chains */
static int originof(const struct rec *r, char *id) { size_t pl = strlen(HX_PREFIX), il = arch_idbits / 4; if (strlen(r->origin) != pl + il + 2 || r->origin[0] != '<' || r->origin[pl + il + 1] != '>' || memcmp(r->origin + 1, HX_PREFIX, pl)) return 0; memcpy(id, r->origin + 1 + pl, il); id[il] = 0; return 1; }
static struct rec *segof(const char *id, int no) { char o[65]; for (int i = 0; i < nR; i++) if (R[i].segno == no && (no == 1 ? !strcmp(R[i].id, id) : originof(&R[i], o) && !strcmp(o, id))) return &R[i]; return NULL; }
static int same_obj(const struct rec *a, const struct rec *r) { char o[65]; if (a->segno == 1) return a == r; return originof(a, o) && !strcmp(o, r->id); }
/* whole object starting in r: NULL if its chain is incomplete or wrong */
static uint8_t *object(struct rec *r, size_t *n, const char **why)
{
	static char dig[65]; struct rec *s = r, *q; size_t cap = 0; uint8_t *b; int k = 1, only;
	*why = NULL; *n = 0;
	for (int i = 0; i < nR; i++) cap += R[i].n;
	b = malloc(cap + 1);
	if (!r->segno) { memcpy(b, r->body, r->n); *n = r->n; if (r->origin[0] || r->total || r->pdig[0]) *why = "unsegmented record with segment fields"; return b; }
	for (;;) {
		memcpy(b + *n, s->body, s->n); *n += s->n;
		only = s > R && s[-1].silo == s->silo && !strcmp(s[-1].type, "warcinfo");
		for (int i = 0; i < nR; i++) if (&R[i] != s && R[i].silo == s->silo && R[i].segno && (R[i].segno == 1 ? R[i].id : R[i].origin)[0] && same_obj(&R[i], r)) only = 0;
		if (!only) *why = "segment is not the first record of a silo of its own";
		if ((k == 1) != (s->pdig[0] != 0)) *why = "payload digest not exactly on the first segment";
		if ((k > 1) != (s->origin[0] != 0)) *why = "origin not exactly on later segments";
		if ((k > 1) != !strcmp(s->type, "continuation")) *why = "wrong type of segment";
		if (s->total) { if (s->total != (long)*n) *why = "wrong total length"; break; }
		q = segof(r->id, ++k); if (!q) { *why = "last segment missing"; break; }
		memcpy(s->next, q->id, 8); s = q;
	}
	if (segof(r->id, k + 1)) *why = "segments after the last one";
	env_sha_hex(b, *n, dig); if (strcmp(dig, r->pdig)) *why = "payload digest wrong";
	return b;
}
static unsigned wantflags(const struct rec *r)
{
	unsigned f = !strcmp(r->type, "warcinfo") ? IDX_F_WARCINFO : !strcmp(r->type, "metadata") ? IDX_F_METADATA : IDX_F_RESOURCE;
	if (!strcmp(r->type, "continuation")) f = 0;
	if (r->segno) f |= IDX_F_SEGMENTED | (r->segno == 1 ? IDX_F_FIRSTSEG : 0) | (r->total ? IDX_F_LASTSEG : 0);
	return f;
}
/* ---- index as found on disk ---- */
#define MAXIX 48
static uint8_t X_[MAXIX][32]; static int nX;
static void idx_read(void)
{
	size_t n; uint8_t *d; nX = 0;
	for (int k = 0; k < 2; k++) {
		d = env_data(k ? "/s/index.housekeep" : "/s/index.appendix", &n);
		for (size_t o = 0; o + 32 <= n && nX < MAXIX; o += 32) memcpy(X_[nX++], d + o, 32);
	}
	d = env_data("/s/index.sorted", &n);
	if (d && n > 8) for (size_t o = (size_t)8 << d[2]; o + 32 <= n && nX < MAXIX; o += 32) memcpy(X_[nX++], d + o, 32);
	if (nX >= MAXIX) sym_fail("env", "harness: too many index entries");
}
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void wantentry(const struct rec *r, uint8_t *e)
{
	for (int i = 0; i < 12; i++) e[i] = (uint8_t)(i * 2 < (int)arch_idbits / 4 ? hv(r->id[2 * i]) << 4 | hv(r->id[2 * i + 1]) : 0);
	be32enc(e + 12, wantflags(r)); be32enc(e + 16, r->silo); be64enc(e + 20, r->off);
	for (int i = 0; i < 4; i++) e[28 + i] = (uint8_t)(hv(r->next[2 * i]) << 4 | hv(r->next[2 * i + 1]));
}
/* does the index describe exactly the records R?  extra: entries beyond them are allowed */
static int idx_agrees(int duplicates)
{
	int used[MAXIX] = { 0 }; uint8_t e[32];
	idx_read();
	for (int i = 0; i < nR; i++) {
		int f = 0; wantentry(&R[i], e);
		for (int k = 0; k < nX; k++) if (!used[k] && !memcmp(X_[k], e, 32)) { used[k] = 1; f = 1; if (!duplicates) break; }
		if (!f) return -1;
	}
	for (int k = 0; k < nX; k++) if (!used[k]) return 1;
	return 0;
}
/* everything that must hold of an archive at rest */
static void arch_check(const char *where)
{
	char b[64]; size_t n; const char *why; (void)where;
	arch_read(arch_limit);
	sym_need(!arch_bad, "C01,C03,C05", arch_why ? arch_why : "?");
	for (int s = 0; s < arch_limit; s++) { silo_path(b, sizeof b, (unsigned)s); n = env_exists(b) ? env_size(b) : 0; sym_assert(n <= arch_max, "C03,C16", "silo larger than the maximum size"); }
	for (int i = 0; i < nR; i++) if (R[i].segno == 1) { free(object(&R[i], &n, &why)); sym_assert(why == NULL, "C03", why ? why : "?"); }
	for (int i = 0; i < nR; i++) if (R[i].segno > 1) { char o[65]; sym_assert(originof(&R[i], o) && segof(o, 1) != NULL, "C03", "continuation does not refer to a first segment"); }
	int a = idx_agrees(0);
	sym_assert(a >= 0, "C02,C09,C01", "a record is not in the index as it should be");
	sym_assert(a <= 0, "C02,C09,C14", "index has an entry without a record");
	sym_assert(arch_holds() == 0, "C04,C14", "a hold file is left behind");
}
/* copy of all silos and index files, to see what changed */
struct snap { char *name; uint8_t *d; size_t n; }; struct snaps { struct snap s[40]; int n; };
static void snap_take(struct snaps *s) { s->n = 0; for (int i = 0; i < env_nfiles(); i++) { const char *p = env_fname(i); if (!p || strncmp(p, "/s/", 3)) continue; struct snap *q = &s->s[s->n++]; size_t n; uint8_t *d = env_data(p, &n); q->name = strdup(p); q->d = malloc(n + 1); memcpy(q->d, d, n); q->n = n; } }
static int is_silo(const char *p) { return strstr(p, "index.") == NULL && strstr(p, "_.cache") == NULL && !(strlen(p) > 5 && !strcmp(p + strlen(p) - 5, ".hold")); }
/* silos only grew */
static int snap_grown(const struct snaps *s) { for (int i = 0; i < s->n; i++) if (is_silo(s->s[i].name)) { size_t n; uint8_t *d = env_data(s->s[i].name, &n); if (!d || n < s->s[i].n || memcmp(d, s->s[i].d, s->s[i].n)) return 0; } return 1; }
/* silos and index are exactly as before (the index entries in any file) */
static int snap_same(const struct snaps *s) {
	int a = 0; for (int i = 0; i < s->n; i++) { if (strstr(s->s[i].name, "_.cache")) continue; size_t n; uint8_t *d = env_data(s->s[i].name, &n); if (!d || n != s->s[i].n || memcmp(d, s->s[i].d, n)) return 0; a++; }
	for (int i = 0; i < env_nfiles(); i++) { const char *p = env_fname(i); if (p && !strncmp(p, "/s/", 3) && !strstr(p, "_.cache")) a--; }
	return a == 0; }
/* get: returns exit status and what was delivered */
static const uint8_t *got; static size_t ngot;
static int get_(const char **args) { int r; env_remove("/out"); r = cliv(args); size_t n; uint8_t *d = env_data("/out", &n); got = d; ngot = n; return r; }
#define get(id) get_((const char *[]){ "get", "-o", "/out", id, NULL })
#define getz(id) get_((const char *[]){ "get", "-z", "-o", "/out", id, NULL })
static const char *bare(const char *id) { return strncmp(id, HX_PREFIX, strlen(HX_PREFIX)) ? id : id + strlen(HX_PREFIX); }
#endif
