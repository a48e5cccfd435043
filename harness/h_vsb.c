/* C21: string buffers */
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "vdef.h"
#include "vas.h"
#include "vsb.h"
#include "sym.h"
#include "env.h"

static unsigned char want[40000]; static size_t wn; static int ind; static int autoext; static size_t fixed;
static struct vsb *vs; static int sawerr, negative;
static void put1(unsigned char c)
{
	if (ind && (wn == 0 || want[wn - 1] == '\n')) for (int i = 0; i < ind; i++) want[wn++] = ' ';
	want[wn++] = c;
}
static void putn(const void *p, size_t n)
{
	if (n == 0) return;
	if (ind && (wn == 0 || want[wn - 1] == '\n')) for (int i = 0; i < ind; i++) want[wn++] = ' ';
	memcpy(want + wn, p, n); wn += n;
}
static const int lens_q[] = { 0, 1, 3, 15, 16, 17, 4080 }, lens_f[] = { 0, 1, 3, 6, 7, 8, 9 };
static void oneop(int k, int noindent)
{
	int op = (int)sym_range(0, 8), rv = 0, n;
	int ov = 0;
	unsigned char *b;
	if (op <= 3) {
		n = autoext ? lens_q[sym_range(0, sym_arg("nlens", 7) - 1)] : lens_f[sym_range(0, 6)];
		b = malloc(n + 1);
		memset(b, 'a' + k, n);
		if (n > 0) b[0] = (unsigned char)sym_u(1, 255);
		if (n > 1) b[n - 1] = (unsigned char)sym_u(1, 255);
		b[n] = 0;
		size_t before = wn;
		if (op == 0) { rv = VSB_bcat(vs, b, n); putn(b, n); }
		else if (op == 1) { rv = VSB_cat(vs, (char *)b); for (int i = 0; i < n; i++) put1(b[i]); }
		else if (op == 2) { rv = VSB_printf(vs, "%s", (char *)b); if (ind && n == 0) { if (wn == 0 || want[wn - 1] == '\n') { memset(want + wn, ' ', ind); wn += ind; } } putn(b, n); }
		else { rv = VSB_printf(vs, "<%.*s>%d", n, (char *)b, 42); unsigned char *t = malloc(n + 5); t[0] = '<'; memcpy(t + 1, b, n); memcpy(t + n + 1, ">42", 3); putn(t, n + 4); free(t); }
		(void)before;
		free(b);
	} else if (op == 4) {
		unsigned char c = (unsigned char)sym_u(0, 255);
		rv = VSB_putc(vs, c); put1(c);
	} else if (op == 5) {
		VSB_clear(vs); wn = 0; ind = 0; sawerr = 0; negative = 0; sym_assert(VSB_error(vs) == 0 && VSB_len(vs) == 0, "C21", "a cleared buffer is not empty");
	} else if (op == 6) {
		VSB_indent(vs, 2); ind += 2;
	} else if (op == 7) {
		int by = noindent ? 5 : 30; VSB_indent(vs, by); ind += by;
	} else {
		VSB_indent(vs, -2);
		if (ind < 2) { sym_assert(VSB_error(vs) != 0, "C21", "indentation below zero is not reported"); sawerr = 1; if (!autoext) wn = fixed; else negative = 1; } else ind -= 2;
	}
	if (negative) { sym_assert(VSB_error(vs) != 0 && (op >= 5 || op == 5 || rv == -1), "C21", "an error is forgotten"); return; }
	if (!autoext && wn > fixed - 1) ov = 1;
	if (autoext) sym_assert(rv == 0, "C21", "operation on an extensible buffer fails");
	if (ov) { sym_assert(VSB_error(vs) != 0, "C21", "overflow of a fixed buffer is not reported"); if (op < 5 && !ind) sym_assert(rv == -1, "C21", "overflowing call succeeds"); }
	else if (!autoext && !sawerr && wn < fixed - 1) sym_assert(rv == 0 && VSB_error(vs) == 0, "C21", "error without overflow");
	if (VSB_error(vs)) { sawerr = 1; wn = fixed; }
}
void h_vsb_ops(void)
{
	env_install_vas();
	int kind = (int)sym_range(0, 2), nops = (int)sym_arg("ops", 2);
	char *buf = NULL; struct vsb local;
	if (kind == 0) { vs = VSB_new_auto(); autoext = 1; }
	else if (kind == 1) { buf = malloc(9); autoext = 0; fixed = 9; vs = VSB_new(sym_bool() ? &local : NULL, buf, 9, VSB_FIXEDLEN); }
	else { buf = malloc(4); autoext = 1; vs = VSB_new(&local, buf, 4, VSB_AUTOEXTEND); }
	sym_assert(vs != NULL && VSB_len(vs) == 0, "C21", "new buffer is not empty");
	for (int i = 0; i < nops; i++) oneop(i, !autoext);
	int e = VSB_error(vs), r = VSB_finish(vs);
	if (e) { sym_assert(r == -1 && VSB_len(vs) == -1, "C21", "error is not reported by finish and length"); sym_reach("error"); }
	else {
		sym_assert(r == 0, "C21", "finish fails");
		sym_assert((size_t)VSB_len(vs) == wn, "C21", "length differs");
		sym_assert(VSB_data(vs)[wn] == 0, "C21", "no terminating NUL");
		sym_assert(sym_memeq(VSB_data(vs), want, wn), "C21", "content differs");
		sym_note(1, wn);
		if (kind == 0) {
			size_t on; int fd = env_mkfd_out();
			sym_assert(VSB_tofile(fd, vs) == 0, "C21", "tofile fails");
			const uint8_t *o = env_fd_out(fd, &on);
			sym_assert(on == wn && sym_memeq(o, want, wn), "C21", "tofile writes something else");
		}
		sym_reach("content");
	}
	VSB_destroy(&vs);
	sym_assert(vs == NULL, "C21", "destroy leaves the pointer");
	if (buf) { buf[0] = 1; free(buf); }	/* the caller's buffer stays the caller's */
}

/* quoting can be undone */
static int unhex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99; }
/* every line starts with the prefix */
static size_t unprefix(const unsigned char *p, size_t n, unsigned char *o, const char *pfx)
{
	size_t k = 0, i = 0, pl = strlen(pfx);
	while (i < n) {
		if (i == 0 || p[i - 1] == '\n') { sym_need(n - i >= pl && sym_memeq(p + i, pfx, pl), "C21", "a line without the prefix"); i += pl; if (i == n) break; }
		o[k++] = p[i++];
	}
	return k;
}
static size_t unquote(const unsigned char *p, size_t n, unsigned char *o, int cstr)
{
	size_t k = 0, i = 0; int in = !cstr;
	while (i < n) {
		if (cstr && p[i] == '"') { in = !in; i++; continue; }
		if (!in) { sym_assert(p[i] == '\n' , "C21", "text outside the quotes"); i++; continue; }
		if (p[i] != '\\') { o[k++] = p[i++]; continue; }
		i++; sym_assert(i < n, "C21", "dangling backslash");
		unsigned char c = p[i++];
		if (c == 'n') o[k++] = '\n'; else if (c == 'r') o[k++] = '\r'; else if (c == 't') o[k++] = '\t'; else if (c == 'v') o[k++] = '\v';
		else if (c == '\\' || c == '"' || c == '?') o[k++] = c;
		else if (c == 'x') { o[k++] = (unsigned char)(unhex(p[i]) * 16 + unhex(p[i + 1])); i += 2; }
		else { sym_assert(c >= '0' && c <= '3' && i + 1 < n, "C21", "unknown escape"); o[k++] = (unsigned char)((c - '0') * 64 + (p[i] - '0') * 8 + (p[i + 1] - '0')); i += 2; }
	}
	return k;
}
void h_vsb_quote(void)
{
	static const int hows[] = { 0, VSB_QUOTE_JSON, VSB_QUOTE_CSTR, VSB_QUOTE_HEX, VSB_QUOTE_NONL, VSB_QUOTE_ESCHEX, VSB_QUOTE_CSTR | VSB_QUOTE_ESCHEX, VSB_QUOTE_UNSAFE };
	env_install_vas();
	int how = hows[sym_pick(8)]; size_t n = sym_range(0, sym_arg("n", 2)), z = how == VSB_QUOTE_HEX ? sym_range(0, 6) : 0;
	unsigned char in[16], out[64], line[200]; struct vsb *v = VSB_new_auto(); const char *pfx = sym_bool() ? "" : "-- ";
	memset(in, 0, sizeof in);
	if (sym_bool() && n > 0) { sym_bytes_range(in, n, 1, 255); in[n] = 0; VSB_quote_pfx(v, pfx, in, -1, how); }
	else { sym_bytes(in, n); n += z; if (*pfx) VSB_quote_pfx(v, pfx, in, (int)n, how); else VSB_quote(v, in, (int)n, how); }
	sym_assert(VSB_finish(v) == 0, "C21", "quote fails");
	const unsigned char *d = line; size_t l = unprefix((unsigned char *)VSB_data(v), (size_t)VSB_len(v), line, pfx), k;
	if (n == 0 && !(how & VSB_QUOTE_CSTR)) { sym_assert(VSB_len(v) == 0, "C21", "something is made of nothing"); VSB_destroy(&v); return; }
	if (how & VSB_QUOTE_UNSAFE) for (size_t i = 0; i < n; i++) if (in[i] == '\\') return;
	if ((how & VSB_QUOTE_HEX) && n > 4) {
		int nz = 0; for (size_t i = 0; i < n; i++) nz |= in[i];
		if (sym_concretize((uint64_t)(nz != 0)) == 0) { sym_assert(l == 7 && sym_memeq(d, "0x0...0", 7), "C21", "many zeros"); VSB_destroy(&v); return; }
	}
	if (how & VSB_QUOTE_HEX) {
		if (n == 0) sym_assert(l == 0, "C21", "hex of nothing is not empty");
		else {
			sym_assert(l == 2 + 2 * n && d[0] == '0' && d[1] == 'x', "C21", "hex quote has wrong length");
			for (size_t i = 0; i < n; i++) sym_assert(unhex(d[2 + 2 * i]) * 16 + unhex(d[3 + 2 * i]) == in[i], "C21", "hex quote differs");
		}
	} else {
		k = unquote(d, l, out, how & VSB_QUOTE_CSTR);
		if ((how & (VSB_QUOTE_NONL | VSB_QUOTE_UNSAFE)) && n > 0 && in[n - 1] != '\n') { sym_assert(k == n + 1 && out[n] == '\n', "C21", "no final newline"); k--; }
		sym_assert(k == n && sym_memeq(out, in, n), "C21", "quoted text does not stand for the original");
		if (how == 0 || how == VSB_QUOTE_JSON || (how & VSB_QUOTE_ESCHEX)) for (size_t i = 0; i < l; i++) sym_assert((d[i] >= ' ' && d[i] < 127) || (how & VSB_QUOTE_CSTR), "C21", "unprintable byte in quoted text");
	}
	VSB_destroy(&v);
}
