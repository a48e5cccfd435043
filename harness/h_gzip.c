/* C12 C05: gzip members, their recorded length, and stitching them together */
#include "hx_arch.h"
/* a self-delimiting member with n bytes in one or two blocks; ending 0: 03 00, 1: 01 00 00 ff ff */
static size_t mk(uint8_t *o, const uint8_t *d, size_t n, int two, int ending, int sync)
{
	static const uint8_t h[16] = { 0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 2, 3, 12, 0, 'A', 'a', 8, 0 }; size_t k = 24, a = two ? n / 2 : n;
	memcpy(o, h, 16); if (ending) o[8] = 4;
	for (int i = 0; i < 2; i++) { size_t l = i ? n - a : a; if (!l) continue; o[k++] = 0; o[k++] = (uint8_t)l; o[k++] = (uint8_t)(l >> 8); o[k++] = (uint8_t)~o[k - 2]; o[k++] = (uint8_t)~o[k - 2]; memcpy(o + k, d + (i ? a : 0), l); k += l; }
	if (sync) { memcpy(o + k, "\0\0\0\xff\xff", 5); k += 5; }
	if (ending) { memcpy(o + k, "\1\0\0\xff\xff", 5); k += 5; } else { o[k++] = 3; o[k++] = 0; }
	le32enc(o + k, (uint32_t)crc32(crc32(0, NULL, 0), d, (unsigned)n)); le32enc(o + k + 4, (uint32_t)n); k += 8;
	le64enc(o + 16, k); return k;
}
struct sink { uint8_t b[600]; size_t n; int calls, stop, stopped; };
static int sink(void *priv, const void *p, ssize_t l)
{
	struct sink *s = priv;
	sym_assert(!s->stopped, "C12", "a consumer that stopped is called again");
	sym_assert(l >= 0 && s->n + (size_t)l <= sizeof s->b, "C12", "far too much is delivered");
	memcpy(s->b + s->n, p, (size_t)l); s->n += (size_t)l;
	if (s->calls++ == s->stop) { s->stopped = 1; return 5; }
	return 0;
}
void h_stitch(void)
{
	static struct sink s; static uint8_t m[200]; uint8_t body[200]; size_t tot = 0; int nseg = 1 + (int)sym_pick((uint64_t)sym_arg("segs", 3)), r = 0;
	static const size_t lens[] = { 1, 13, 30, 2, 3, 60 };
	hx_init(); memset(&s, 0, sizeof s); s.stop = (int)sym_pick((uint64_t)sym_arg("stops", 8)) - 1;
	struct gzip_stitch *gs = gzip_stitch_new(sink, &s); int cut = (int)sym_pick((uint64_t)nseg);
	for (int i = 0; i < nseg && r == 0; i++) {
		size_t n = lens[sym_pick((uint64_t)sym_arg("lens", 3))]; sym_bytes(body + tot, n);
		size_t k = mk(m, body + tot, n, sym_bool(), sym_bool(), sym_bool()), pos = 0; tot += n;
		int piece = 0, bytewise = i == cut ? sym_bool() : 1;
		while (pos < k && r == 0) {
			size_t l = k - pos;
			if (i == cut && piece == 0) l = (size_t)sym_range(24, k); else if (i == cut && piece == 1) l = (size_t)sym_range(1, l); else if (piece == 0) l = 24; else if (bytewise) l = 1;
			piece++;
			uint8_t *q = malloc(l); memcpy(q, m + pos, l); r = gzip_stitch_feed(gs, q, (ssize_t)l); free(q); pos += l;
		}
	}
	sym_assert(r == (s.stopped ? 5 : 0), "C12", "the consumer's value is not passed on while stitching");
	r = gzip_stitch_fini(gs);
	sym_assert(r == (s.stopped ? 5 : 0), "C12", "the consumer's value is not passed on");
	if (s.stopped) { sym_reach("stopped"); return; }
	uint8_t *o; size_t on, used; r = env_gunzip(s.b, s.n, &o, &on, &used);
	sym_assert(r && used == s.n, "C12", "stitched segments are not exactly one gzip member");
	sym_assert(!r || (on == tot && sym_memeq(o, body, tot)), "C12", "stitched segments do not decompress to the object");
	if (nseg > 2) sym_reach("three segments");
}
void h_gzip_vsb(void)
{
	static const size_t lens[] = { 0, 1, 3, 100, 986, 987, 988, 1011, 1024, 1025, 2011, 2048, 3000 }; static const int lv[] = { 0, 9, 6 };
	hx_init(); env_z_rle = sym_bool(); size_t n = lens[sym_pick(13)]; static uint8_t b[3000]; int level = lv[sym_pick(3)];
	int run = sym_bool(); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(run ? 'a' : i * 7 + 1); if (n && !run) { b[0] = (uint8_t)sym_u(1, 255); b[n - 1] = (uint8_t)sym_u(1, 255); }
	struct vsb *v = VSB_new_auto(); VSB_bcat(v, b, (ssize_t)n); AZ(VSB_finish(v));
	if (level == 6) return;
	Gzip_Vsb(&v, level);
	const uint8_t *p = (const uint8_t *)VSB_data(v); size_t l = (size_t)VSB_len(v), on, used; uint8_t *o;
	sym_assert(member(p, l) == l && l > 24, "C05,C12", "member does not carry its own length");
	sym_assert(Gzip_ReadAa(p, l) == (int64_t)l, "C05,C12", "recorded length is not read back");
	int r = env_gunzip(p, l, &o, &on, &used);
	sym_assert(r && used == l && on == n && sym_memeq(o, b, n), "C05,C12,C27", "member does not decompress to its contents");
	VSB_delete(v);
}
/* recording the length in a file touches nothing else */
void h_gzip_aa(void)
{
	uint8_t m[100], d[10], keep[100]; size_t n; hx_init();
	sym_bytes(d, 10); size_t k = mk(m + 7, d, 10, 0, sym_bool(), 0); for (int i = 0; i < 7; i++) m[i] = (uint8_t)i; sym_bytes(m + 7 + 16, 8); memcpy(keep, m, sizeof keep);
	env_mkfile("/f", m, k + 7);
	int fd = open("/f", O_RDWR); AN(fd > 0); AN(lseek(fd, 7, SEEK_SET) == 7);
	int64_t len = (int64_t)sym_u(1, 0x7fffffffffffffffULL);
	Gzip_WriteAa(fd, len);
	AZ(close(fd));
	uint8_t *f = env_data("/f", &n);
	sym_assert(n == k + 7 && sym_memeq(f, keep, 23) && sym_memeq(f + 31, keep + 31, k + 7 - 31), "C05", "recording the length changes something else");
	sym_assert(le64dec(f + 23) == (uint64_t)len, "C05", "another length is recorded");
	sym_assert(Gzip_ReadAa(f + 7, k) == len, "C05", "recorded length is not read back");
}
/* bodies longer than what is read at once: the ends of members fall everywhere */
void h_get_big(void)
{
	static uint8_t b[80000]; char id[90]; uint8_t *o; size_t on, used;
	unsigned ps = 1024, chunk = ps * 32; long d = (long)sym_range(0, (uint64_t)sym_arg("range", 45)) - 22;
	int first = sym_bool(); size_t n;
	for (size_t i = 0; i < sizeof b; i++) b[i] = (uint8_t)(i * 7 + (i >> 8) + (i >> 13) * 3);
	b[0] = (uint8_t)sym_u(0, 255);
	if (first) { arch_init((uint64_t)((long)chunk + d + sym_arg("over", 1530))); n = 45000; }		/* first segment's member around the size read */
	else { arch_init(200000); n = (size_t)((long)chunk + d - 60); }
	env_z_rle = 1; env_read_max = sym_bool() ? 0 : 20000;
	int r = store(b, n, id); env_read_max = 0;
	sym_need(r == 0, "C01", "store does not succeed");
	arch_read(12); sym_need(!arch_bad, "C05,C01", arch_why ? arch_why : "?");
	if (first) { struct rec *q = arch_find(bare(id)); if (q) { sym_note(1, q->bl); if (q->bl > chunk && q->bl < chunk + 13) sym_reach("end straddles"); if (q->bl < chunk) sym_reach("below"); } }
	env_pagesize = (int)ps;
	r = get(id); sym_assert(r == 0 && ngot == n && sym_memeq(got, b, n), "C01,C12", "get of a long object fails or delivers something else");
	r = getz(id); sym_assert(r == 0, "C12", "get -z of a long object fails");
	if (r) return;
	r = env_gunzip(got, ngot, &o, &on, &used);
	sym_assert(r && used == ngot, "C12", "get -z does not deliver exactly one gzip member");
	sym_assert(on == n && sym_memeq(o, b, n), "C12", "get -z delivers something else than the object");
}
