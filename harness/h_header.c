/* C17: WARC headers */
#include "hx.h"
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int cmp(const char *a, const char *b) { while (*a && lc(*a) == lc(*b)) a++, b++; return lc((unsigned char)*a) - lc((unsigned char)*b); }
static const char *names[] = { "Bb", "bB", "A", "Content-Length", "content-LENGTH", "WARC-Type", "c", "_z" };
#define NN 8
struct fld { int used; const char *name; char val[8]; };
static struct fld m[NN];
static int find(const char *n) { for (int i = 0; i < NN; i++) if (m[i].used && !cmp(m[i].name, n)) return i; return -1; }
static void mset(const char *n, const char *v)
{
	int i = find(n); if (i < 0) { for (i = 0; m[i].used; i++) ; m[i].used = 1; m[i].name = n; }
	strcpy(m[i].val, v);
}
static int below(const char *n) { int c = 0; for (int i = 0; i < NN; i++) if (m[i].used && cmp(m[i].name, n) < 0) c++; return c; }
static void check(struct header *h, const char *what)
{
	(void)what;
	for (int k = 0; k < NN; k++) {
		const char *v = Header_Get(h, names[k]); int i = find(names[k]);
		sym_assert((v != NULL) == (i >= 0), "C17", "field missing or not deleted");
		if (i >= 0) sym_assert(strlen(v) == strlen(m[i].val) && sym_memeq(v, m[i].val, strlen(m[i].val)), "C17", "field value differs");
	}
	sym_assert(Header_Get(h, "Nope") == NULL, "C17", "field out of nowhere");
}
static char *serialize(struct header *h) { struct vsb *v = Header_Serialize(h, -1); sym_assert(VSB_finish(v) == 0, "C17", "serialising fails"); return VSB_data(v); }
static void check_text(const struct aardwarc *aa, const char *t, const char *id)
{
	char want[400]; int n = sprintf(want, "WARC/1.1\r\nWARC-Record-ID: <%s%s>\r\n", aa->prefix, id);
	int cnt = 0; for (int i = 0; i < NN; i++) cnt += m[i].used;
	for (int k = 0; k < cnt; k++) for (int i = 0; i < NN; i++) if (m[i].used && below(m[i].name) == k) { n += sprintf(want + n, "%s: ", m[i].name); size_t l = strlen(m[i].val); memcpy(want + n, m[i].val, l); n += l; n += sprintf(want + n, "\r\n"); }
	n += sprintf(want + n, "\r\n");
	sym_assert(strlen(t) == (size_t)n && sym_memeq(t, want, n), "C17", "serialised header differs");
}
static char *value(void)
{
	static char v[8]; int n = (int)sym_range(0, 2);
	for (int i = 0; i < n; i++) { v[i] = (char)sym_u(1, 255); sym_assume(v[i] != '\r' && v[i] != '\n'); }
	v[n] = 0; return v;
}
void h_header_ops(void)
{
	hx_init();
	struct aardwarc *aa = hx_open(64, 0, 0); struct header *h = Header_New(aa), *c = NULL; static struct fld mc[NN];
	int ops = (int)sym_arg("ops", 3); char id[20] = "0123456789abcdef";
	for (int i = 0; i < 2; i++) id[i * 7] = sym_oneof("0123456789abcdefABCDEF", 22);
	for (int i = 0; i < ops; i++) {
		const char *n = names[sym_pick(NN)];
		int del = (int)sym_bool();
		if (del && i == 0) sym_end();
		if (!del) { const char *v = value(); Header_Set(h, n, "%s", v); mset(n, v); sym_assert(Header_Len(n, "%s", v) == (int)(strlen(n) + 4 + strlen(v)), "C17", "predicted length differs"); }
		else { Header_Delete(h, n); int k = find(n); if (k >= 0) m[k].used = 0; }
	}
	Header_Set_Id(h, id);
	check(h, "after the operations");
	sym_assert(!strcmp(Header_Get_Id(h), id), "C17", "record ID differs");
	char *t = serialize(h);
	check_text(aa, t, id);
	/* clone, then change the original */
	c = Header_Clone(h); memcpy(mc, m, sizeof m);
	Header_Set(h, "A", "changed"); Header_Delete(h, "Bb"); Header_Set_Id(h, "fedcba9876543210");
	check(c, "clone"); sym_assert(!strcmp(Header_Get_Id(c), id), "C17", "clone has another ID");
	Header_Destroy(&h); sym_assert(h == NULL, "C17", "destroy leaves the pointer");
	/* parse */
	char *t2 = strdup(t); if (sym_bool()) t2[7] = '0';
	struct header *p = Header_Parse(aa, t2);
	check(p, "parsed"); sym_assert(!strcmp(Header_Get_Id(p), id), "C17", "parsed record ID differs");
	char *t3 = serialize(p); check_text(aa, t3, id);
	Header_Destroy(&p); free(t2);
	check(c, "clone after the others are gone");
	Header_Destroy(&c);
}
void h_header_number(void)
{
	hx_init();
	struct aardwarc *aa = hx_open(64, 0, 0); struct header *h = Header_New(aa);
	char v[32]; int n; 
	if (sym_bool()) {	/* anything, short */
		n = (int)sym_range(0, 3); sym_bytes_range(v, n, 1, 255); v[n] = 0;
	} else {		/* digits, around the limit of the type */
		n = (int)sym_range(17, 21); for (int i = 0; i < n; i++) v[i] = (char)sym_u('0', '9'); v[n] = 0;
		if (n < 20) { memset(v, '9', n); v[0] = (char)sym_u('0', '9'); v[n - 1] = (char)sym_u('0', '9'); }
		else { memcpy(v, n == 20 ? "18446744073709551616" : "009223372036854775807", n); v[n - 1] = (char)sym_u('0', '9'); v[0] = (char)sym_u('0', '9'); }
		if (sym_bool()) { memcpy(v, "9223372036854775807", n = 19); v[n] = 0; v[18] = (char)sym_u('0', '9'); }
	}
	Header_Set(h, "Content-Length", "%s", v);
	int alld = 1; for (int i = 0; i < n; i++) alld &= v[i] >= '0' && v[i] <= '9';
	/* exact value, saturating */
	uint64_t x = 0; int over = 0;
	for (int i = 0; i < n; i++) { uint64_t d = (unsigned char)(v[i] - '0'); over |= x > (0x7fffffffffffffffULL - (d & 15)) / 10; x = x * 10 + d; }
	intmax_t r = Header_Get_Number(h, "content-length");
	if (n == 0) { sym_assert(r == 0 || r == -1, "C17", "empty number"); return; }
	sym_assert(alld || r == -1, "C17", "number returned for a value that is not all digits");
	sym_assert(!alld || !over || r == -1, "C17", "number returned although it overflows");
	sym_assert(!alld || over || r == (intmax_t)x, "C17", "wrong number");
	sym_assert(Header_Get_Number(h, "Other") == -1, "C17", "number of a missing field");
	sym_reach("number");
}
void h_header_ref(void)
{
	hx_init();
	unsigned bits = 64 + 64 * (unsigned)sym_pick(4); struct aardwarc *aa = hx_open(bits, 0, 0); struct header *h = Header_New(aa);
	char id[80]; unsigned extra = (unsigned)sym_pick(3);
	for (unsigned i = 0; i < bits / 4 + extra; i++) id[i] = "0123456789abcdef"[i & 15];
	id[0] = sym_oneof("0123456789abcdef", 16); id[bits / 4 - 1] = sym_oneof("0123456789abcdef", 16);
	id[bits / 4 + extra] = 0;
	Header_Set_Ref(h, "WARC-Refers-To", id);
	const char *v = Header_Get(h, "warc-refers-to"); size_t pl = strlen(aa->prefix);
	sym_assert(v && v[0] == '<' && strlen(v) == pl + bits / 4 + 2 && v[pl + 1 + bits / 4] == '>' && !memcmp(v + 1, aa->prefix, pl) && sym_memeq(v + 1 + pl, id, bits / 4), "C17", "reference is not <prefix id>");
	Header_Set_Id(h, id);
	sym_assert(strlen(Header_Get_Id(h)) == bits / 4 && sym_memeq(Header_Get_Id(h), id, bits / 4), "C17", "record ID is not the configured length");
	env_time = (long)sym_range(0, 3) * 951782399 + 1;
	Header_Set_Date(h);
	static const char *dates[] = { "1970-01-01T00:00:01Z", "2000-02-29T00:00:00Z", "2030-04-27T23:59:59Z", "2060-06-24T23:59:58Z" };
	const char *d = Header_Get(h, "WARC-Date"); int okd = 0; for (int i = 0; i < 4; i++) okd |= !strcmp(d, dates[i]);
	sym_assert(okd, "C17", "date is not the time in UTC");
	sym_note(1, strlen(d));
}
