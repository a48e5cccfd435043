/* zlib and SHA-256 models.
 * deflate emits byte-aligned blocks (stored, or run-length when env_z_rle), honouring the flush
 * semantics and the header/trailer layout of the real library; CRC-32 and SHA-256 are modelled as
 * injective functions: a registry hands out one token per distinct content. */
#include <stdlib.h>
#include <string.h>
#define ZLIB_CONST
#include <zlib.h>
#include "env.h"
#ifdef ENV_ENGINE
#include "env_remap.h"
#endif

/* ---------------- content registry ---------------- */
struct content { uint8_t *d; size_t n; uint32_t tok; };
static struct content crcs[256]; static int ncrc;
static uint32_t crc_tok(int i) { uint32_t x = (uint32_t)(i + 1) * 0x9e3779b1u; x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13; return x | 0x00800001u; }
static const char CRLF2[] = "\r\n\r\n";
static uint32_t crc_reg(const uint8_t *d, size_t n) {
	if (n == 0) return 0;
	if (n == 4 && !sym_issym(d[0]) && !memcmp(d, CRLF2, 4)) return 0x8bc21544u;
	for (int i = 0; i < ncrc; i++) if (crcs[i].n == n) {
		int e = sym_memeq(crcs[i].d, d, n);
		if (!sym_issym((uint64_t)(unsigned)e) && e) return crcs[i].tok;
	}
	if (ncrc >= 256) sym_fail("env", "model: crc registry full");
	struct content *c = &crcs[ncrc]; c->d = malloc(n); memcpy(c->d, d, n); c->n = n; c->tok = crc_tok(ncrc); ncrc++;
	return c->tok;
}
static int crc_ok(uint32_t tok, const uint8_t *d, size_t n) {
	if (n == 0) return tok == 0;
	int ok = 0;
	if (n == 4) ok = (tok == 0x8bc21544u) & sym_memeq(d, CRLF2, 4);
	for (int i = 0; i < ncrc; i++) if (crcs[i].n == n) ok |= (tok == crcs[i].tok) & sym_memeq(crcs[i].d, d, n);
	return ok;
}
static const struct content *crc_find(uint32_t tok) { for (int i = 0; i < ncrc; i++) if (crcs[i].tok == tok) return &crcs[i]; return NULL; }
uLong env_crc32(uLong crc, const Bytef *b, uInt n) {
	if (b == NULL) return 0;
	const struct content *c = crc ? crc_find((uint32_t)crc) : NULL; size_t m = c ? c->n : 0;
	uint8_t *d = malloc(m + n + 1); if (m) memcpy(d, c->d, m); memcpy(d + m, b, n);
	uLong r = crc_reg(d, m + n); free(d); return r;
}
uLong env_crc32_z(uLong crc, const Bytef *b, z_size_t n) { return env_crc32(crc, b, (uInt)n); }
uLong env_crc32_combine(uLong a, uLong b, z_off_t n) {
	const struct content *x = a ? crc_find((uint32_t)a) : NULL, *y = b ? crc_find((uint32_t)b) : NULL;
	size_t xn = x ? x->n : 0, yn = y ? y->n : 0;
	if ((a && !x) || (b && !y) || yn != (size_t)n) return (a * 31 + b * 17 + (uLong)n * 7 + 5) & 0xffffffffu;	/* not a CRC of anything known */
	uint8_t *d = malloc(xn + yn + 1); if (xn) memcpy(d, x->d, xn); if (yn) memcpy(d + xn, y->d, yn);
	uLong r = crc_reg(d, xn + yn); free(d); return r;
}

/* ---------------- deflate ---------------- */
int env_z_rle, env_z_stored;
struct dbuf { uint8_t *d; size_t n, cap; };
static void db_put(struct dbuf *b, const void *p, size_t n) {
	if (b->n + n > b->cap) { size_t c = b->cap ? b->cap * 2 : 256; while (c < b->n + n) c *= 2; uint8_t *q = malloc(c); if (b->n) memcpy(q, b->d, b->n); free(b->d); b->d = q; b->cap = c; }
	if (n) memcpy(b->d + b->n, p, n);
	b->n += n;
}
static void db_b(struct dbuf *b, unsigned v) { uint8_t c = (uint8_t)v; db_put(b, &c, 1); }
static void db_le(struct dbuf *b, uint64_t v, int k) { while (k-- > 0) { db_b(b, (unsigned)(v & 0xff)); v >>= 8; } }
struct dst { struct dbuf pend, in, all; size_t ppos; int level, gz, hdone, fin, oldflush, unaligned; gz_headerp head; };
#define RANK(f) (((f) * 2) - ((f) > 4 ? 9 : 0))
static void emit_blocks(struct dst *s, int final) {
	size_t o = 0;
	if (s->in.n == 0) {
		if (final) { if (s->level > 0) { db_b(&s->pend, s->unaligned ? 0x0c : 3); db_b(&s->pend, 0); } else { db_b(&s->pend, 1); db_le(&s->pend, 0, 2); db_le(&s->pend, 0xffff, 2); } }
		return;
	}
	s->unaligned = s->level > 0;	/* a stream of bits: only a sync flush makes sure that it ends at a byte */
	if (env_z_rle && s->level > 0 && s->in.n >= 16) {
		int e = sym_memeq(s->in.d, s->in.d + 1, s->in.n - 1);
		if (!sym_issym((uint64_t)(unsigned)e) && e) {
			db_b(&s->pend, final ? 5 : 4); db_le(&s->pend, s->in.n, 4); db_b(&s->pend, s->in.d[0]);
			s->in.n = 0; return;
		}
	}
	while (o < s->in.n) {
		size_t l = s->in.n - o; if (l > 65535) l = 65535;
		db_b(&s->pend, final && o + l == s->in.n ? 1 : 0); db_le(&s->pend, l, 2); db_le(&s->pend, l ^ 0xffff, 2);
		db_put(&s->pend, s->in.d + o, l); o += l;
	}
	s->in.n = 0;
}
int env_deflateInit2_(z_streamp z, int level, int method, int wbits, int mem, int strat, const char *v, int sz) {
	(void)method; (void)mem; (void)strat; (void)v; (void)sz;
	struct dst *s = calloc(1, sizeof *s);
	if (level < 0) level = 6;
	s->level = level; s->gz = wbits > 15; z->state = (void *)s; z->total_in = z->total_out = 0; z->msg = NULL; s->oldflush = -2;
	return Z_OK;
}
int env_deflateInit_(z_streamp z, int level, const char *v, int sz) { return env_deflateInit2_(z, level, Z_DEFLATED, 15, 8, 0, v, sz); }
int env_deflateSetHeader(z_streamp z, gz_headerp h) { struct dst *s = (void *)z->state; if (!s || !s->gz) return Z_STREAM_ERROR; s->head = h; return Z_OK; }
static void drain(z_streamp z, struct dst *s) {
	size_t l = s->pend.n - s->ppos; if (l > z->avail_out) l = z->avail_out;
	if (!l) return;
	memcpy(z->next_out, s->pend.d + s->ppos, l); z->next_out += l; z->avail_out -= (uInt)l; z->total_out += l; s->ppos += l;
	if (s->ppos == s->pend.n) s->ppos = s->pend.n = 0;
}
int env_deflate(z_streamp z, int flush) {
	struct dst *s = (void *)z->state;
	if (!s || flush < 0 || flush > Z_BLOCK || !z->next_out || (z->avail_in && !z->next_in)) return Z_STREAM_ERROR;
	if (s->fin && flush != Z_FINISH) return Z_STREAM_ERROR;
	if (z->avail_out == 0) return Z_BUF_ERROR;
	int old = s->oldflush; s->oldflush = flush;
	if (!s->hdone) {
		s->hdone = 1;
		if (s->gz) {
			gz_headerp h = s->head;
			db_b(&s->pend, 0x1f); db_b(&s->pend, 0x8b); db_b(&s->pend, 8);
			db_b(&s->pend, h && h->extra ? 4 : 0); db_le(&s->pend, h ? h->time : 0, 4);
			db_b(&s->pend, s->level == 9 ? 2 : s->level < 2 ? 4 : 0); db_b(&s->pend, h ? (unsigned)h->os : 3);
			if (h && h->extra) { db_le(&s->pend, h->extra_len, 2); db_put(&s->pend, h->extra, h->extra_len); }
		} else { db_b(&s->pend, 0x78); db_b(&s->pend, 0x9c); }
	} else if (s->pend.n > s->ppos) {
		drain(z, s);
		if (z->avail_out == 0) { s->oldflush = -1; if (s->fin && s->pend.n == s->ppos) { /* fallthrough to end */ } else return Z_OK; }
	} else if (z->avail_in == 0 && RANK(flush) <= RANK(old) && flush != Z_FINISH) return Z_BUF_ERROR;
	if (s->fin && z->avail_in) return Z_BUF_ERROR;
	if (!s->fin) {
		if (z->avail_in) {
			db_put(&s->in, z->next_in, z->avail_in); db_put(&s->all, z->next_in, z->avail_in);
			z->next_in += z->avail_in; z->total_in += z->avail_in; z->avail_in = 0;
		}
		if (flush == Z_NO_FLUSH) { if (s->in.n >= 16384) emit_blocks(s, 0); }
		else if (flush == Z_FINISH) {
			emit_blocks(s, 1); s->fin = 1;
			if (s->gz) { db_le(&s->pend, crc_reg(s->all.d, s->all.n), 4); db_le(&s->pend, s->all.n & 0xffffffffu, 4); }
			else db_le(&s->pend, 0x12345678, 4);
		} else {
			emit_blocks(s, 0);
			if (flush == Z_SYNC_FLUSH || flush == Z_FULL_FLUSH) { db_b(&s->pend, 0); db_le(&s->pend, 0, 2); db_le(&s->pend, 0xffff, 2); s->unaligned = 0; }
		}
	}
	drain(z, s);
	if (z->avail_out == 0 && s->pend.n > s->ppos) { s->oldflush = -1; return Z_OK; }
	if (s->fin && s->pend.n == s->ppos) return Z_STREAM_END;
	return Z_OK;
}
int env_deflateEnd(z_streamp z) {
	struct dst *s = (void *)z->state; if (!s) return Z_STREAM_ERROR;
	int r = !s->fin && s->hdone && !(s->pend.n > s->ppos) && 0 ? Z_DATA_ERROR : Z_OK;
	if (s->hdone && !s->fin) r = Z_DATA_ERROR;
	free(s->pend.d); free(s->in.d); free(s->all.d); free(s); z->state = NULL; return r;
}
int env_deflateReset(z_streamp z) { struct dst *s = (void *)z->state; int l = s->level, g = s->gz; free(s->pend.d); free(s->in.d); free(s->all.d); memset(s, 0, sizeof *s); s->level = l; s->gz = g; s->oldflush = -2; z->total_in = z->total_out = 0; return Z_OK; }

/* ---------------- inflate ---------------- */
enum { H_HEAD, H_EXTRA, H_NAME, H_COMMENT, H_BLOCK, H_LEN, H_STORED, H_RLELEN, H_RLE, H_STATIC, H_TRAILER, H_DONE, H_BAD };
struct ist { int st, n, fin, wbits, flg; uint32_t left, xlen; uint8_t hb[16]; uint8_t rb; struct dbuf all; };
int env_inflateInit2_(z_streamp z, int wbits, const char *v, int sz) {
	(void)v; (void)sz; struct ist *s = calloc(1, sizeof *s); s->wbits = wbits; z->state = (void *)s; z->total_in = z->total_out = 0; z->msg = NULL; return Z_OK; }
int env_inflateInit_(z_streamp z, const char *v, int sz) { return env_inflateInit2_(z, 15, v, sz); }
int env_inflateEnd(z_streamp z) { struct ist *s = (void *)z->state; if (!s) return Z_STREAM_ERROR; free(s->all.d); free(s); z->state = NULL; return Z_OK; }
int env_inflateReset(z_streamp z) { struct ist *s = (void *)z->state; int w = s->wbits; free(s->all.d); memset(s, 0, sizeof *s); s->wbits = w; z->total_in = z->total_out = 0; return Z_OK; }
static void after_head(struct ist *s) {
	if (s->flg & 4) { s->flg &= ~4; s->st = H_EXTRA; s->n = 0; return; }
	if (s->flg & 8) { s->flg &= ~8; s->st = H_NAME; return; }
	if (s->flg & 16) { s->flg &= ~16; s->st = H_COMMENT; return; }
	s->st = H_BLOCK;
}
static int static_tail(int i, unsigned c) { static const uint8_t t[] = { 0xe5, 0xe2, 0xe5, 0x02, 0x00 }; return c == t[i]; }
int env_inflate(z_streamp z, int flush) {
	struct ist *s = (void *)z->state;
	if (!s || !z->next_out || (!z->next_in && z->avail_in)) return Z_STREAM_ERROR;
	uInt in0 = z->avail_in, out0 = z->avail_out; int ret = Z_OK;
	for (;;) {
		if (s->st == H_DONE) { ret = Z_STREAM_END; break; }
		if (s->st == H_BAD) { ret = Z_DATA_ERROR; break; }
		if (s->st == H_STORED || s->st == H_RLE) {
			size_t l = s->left;
			if (l == 0) { s->st = s->fin ? H_TRAILER : H_BLOCK; s->n = 0; continue; }
			if (l > z->avail_out) l = z->avail_out;
			if (s->st == H_STORED && l > z->avail_in) l = z->avail_in;
			if (l == 0) break;
			if (s->st == H_STORED) { memcpy(z->next_out, z->next_in, l); z->next_in += l; z->avail_in -= (uInt)l; z->total_in += l; }
			else memset(z->next_out, s->rb, l);
			db_put(&s->all, z->next_out, l);
			z->next_out += l; z->avail_out -= (uInt)l; z->total_out += l; s->left -= (uint32_t)l;
			continue;
		}
		if (s->st == H_STATIC && s->n == 5) {	/* the two CRLFs */
			if (s->left == 0) s->left = 4;
			while (s->left && z->avail_out) { uint8_t c = (uint8_t)CRLF2[4 - s->left]; *z->next_out++ = c; z->avail_out--; z->total_out++; db_b(&s->all, c); s->left--; }
			if (s->left) break;
			s->st = H_TRAILER; s->n = 0; continue;
		}
		if (z->avail_in == 0) break;
		uint8_t c = *z->next_in++; z->avail_in--; z->total_in++;
		switch (s->st) {
		case H_HEAD:
			s->hb[s->n++] = c;
			if (s->n == 1 && c != 0x1f) s->st = H_BAD;
			else if (s->n == 2 && c != 0x8b) s->st = H_BAD;
			else if (s->n == 3 && c != 8) s->st = H_BAD;
			else if (s->n == 4) { if (c & 0xe0) s->st = H_BAD; s->flg = c; }
			else if (s->n == 10) after_head(s);
			break;
		case H_EXTRA:
			if (s->n < 2) { s->hb[s->n++] = c; if (s->n == 2) { s->left = s->hb[0] | (uint32_t)s->hb[1] << 8; if (s->left == 0) after_head(s); } }
			else if (--s->left == 0) after_head(s);
			break;
		case H_NAME: case H_COMMENT: if (c == 0) after_head(s); break;
		case H_BLOCK:
			s->n = 0; s->fin = 0; s->left = 0;
			if (c == 0 || c == 1) { s->fin = c; s->st = H_LEN; }
			else if (c == 4 || c == 5) { s->fin = c & 1; s->st = H_RLELEN; }
			else if (c == 3 || c == 0x0c) { s->st = H_STATIC; s->n = -1; }
			else if (c == 0xe3) { s->st = H_STATIC; s->n = 0; }
			else s->st = H_BAD;
			break;
		case H_STATIC:
			if (s->n == -1) { if (c == 0) { s->st = H_TRAILER; s->n = 0; } else s->st = H_BAD; }
			else if (static_tail(s->n, c)) s->n++; else s->st = H_BAD;
			break;
		case H_LEN:
			s->hb[s->n++] = c;
			if (s->n == 4) { uint32_t a = s->hb[0] | (uint32_t)s->hb[1] << 8, b = s->hb[2] | (uint32_t)s->hb[3] << 8;
				if ((a ^ b) != 0xffff) s->st = H_BAD; else { s->left = (uint32_t)sym_concretize(a); s->st = H_STORED; } }
			break;
		case H_RLELEN:
			s->hb[s->n++] = c;
			if (s->n == 5) { s->left = (uint32_t)sym_concretize(s->hb[0] | (uint32_t)s->hb[1] << 8 | (uint32_t)s->hb[2] << 16 | (uint32_t)s->hb[3] << 24); s->rb = c; s->st = s->left > (1u << 24) ? H_BAD : H_RLE; }
			break;
		case H_TRAILER:
			s->hb[s->n++] = c;
			if (s->n == 8) {
				uint32_t t = s->hb[0] | (uint32_t)s->hb[1] << 8 | (uint32_t)s->hb[2] << 16 | (uint32_t)s->hb[3] << 24;
				uint32_t l = s->hb[4] | (uint32_t)s->hb[5] << 8 | (uint32_t)s->hb[6] << 16 | (uint32_t)s->hb[7] << 24;
				int ok = crc_ok(t, s->all.d, s->all.n) & (l == (uint32_t)s->all.n);
				s->st = ok ? H_DONE : H_BAD;
			}
			break;
		}
	}
	if (ret == Z_OK && ((in0 == z->avail_in && out0 == z->avail_out) || flush == Z_FINISH)) ret = Z_BUF_ERROR;
	return ret;
}
int env_gunzip(const uint8_t *p, size_t n, uint8_t **outp, size_t *outn, size_t *used) {
	z_stream z[1]; struct dbuf o = { 0, 0, 0 }; uint8_t t[512]; int r;
	memset(z, 0, sizeof z); env_inflateInit2_(z, 31, "", 0); z->next_in = p; z->avail_in = (uInt)n;
	do { z->next_out = t; z->avail_out = sizeof t; r = env_inflate(z, 0); db_put(&o, t, sizeof t - z->avail_out); } while (r == Z_OK);
	*used = n - z->avail_in; env_inflateEnd(z);
	if (outp) { *outp = o.d ? o.d : malloc(1); *outn = o.n; } else free(o.d);
	return r == Z_STREAM_END;
}

/* ---------------- SHA-256 ---------------- */
struct shac { uint8_t *d; size_t n; uint8_t dig[32]; };
static struct shac shas[64]; static int nsha;
static struct { int set; uint8_t nib[64]; int n; } shapfx[64];
void env_sha_reset(void) { nsha = 0; }
int env_sha_ntokens(void) { return nsha; }
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
void env_sha_set_prefix(int t, const char *hex) { shapfx[t].n = 0; while (*hex) shapfx[t].nib[shapfx[t].n++] = (uint8_t)hexv(*hex++); }
static const uint8_t *sha_reg(const uint8_t *d, size_t n) {
	for (int i = 0; i < nsha; i++) if (shas[i].n == n && sym_memeq(shas[i].d, d, n)) return shas[i].dig;
	if (nsha >= 64) sym_fail("env", "model: sha registry full");
	struct shac *c = &shas[nsha]; c->d = malloc(n + 1); if (n) memcpy(c->d, d, n); c->n = n;
	uint64_t x = (uint64_t)(nsha + 1) * 0x9e3779b97f4a7c15ULL;
	for (int k = 0; k < 32; k++) { x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32; c->dig[k] = (uint8_t)(x >> 24); }
	for (int k = 0; k < shapfx[nsha].n; k++) { uint8_t *b = &c->dig[k / 2]; *b = (k & 1) ? (uint8_t)((*b & 0xf0) | shapfx[nsha].nib[k]) : (uint8_t)((*b & 0x0f) | shapfx[nsha].nib[k] << 4); }
	nsha++;
	return c->dig;
}
static void tohex(const uint8_t *d, char *o) { for (int i = 0; i < 32; i++) { o[2 * i] = "0123456789abcdef"[d[i] >> 4]; o[2 * i + 1] = "0123456789abcdef"[d[i] & 15]; } o[64] = 0; }
void env_sha_hex(const void *p, size_t n, char *o) { tohex(sha_reg(p, n), o); }
struct shactx { uint64_t init; struct dbuf b; };
#define SHAINIT 0x6a09e667bb67ae85ULL
void env_SHA256Init(void *c) { memset(c, 0, sizeof(struct shactx)); ((struct shactx *)c)->init = SHAINIT; }
/* not initialised: what comes out is the digest of nothing anybody knows */
static void sha_need(void *c) { if (((struct shactx *)c)->init != SHAINIT) { env_SHA256Init(c); db_put(&((struct shactx *)c)->b, (const uint8_t *)"not initialised", 15); } }
void env_SHA256Update(void *c, const void *p, size_t n) { sha_need(c); db_put(&((struct shactx *)c)->b, p, n); }
void env_SHA256Final(uint8_t *dig, void *c) { sha_need(c); struct shactx *x = c; memcpy(dig, sha_reg(x->b.d, x->b.n), 32); free(x->b.d); memset(x, 0, sizeof *x); }
char *env_SHA256End(void *c, char *buf) { uint8_t d[32]; env_SHA256Final(d, c); if (!buf) buf = malloc(65); tohex(d, buf); return buf; }
char *env_SHA256Data(const void *p, size_t n, char *buf) { if (!buf) buf = malloc(65); tohex(sha_reg(p, n), buf); return buf; }
