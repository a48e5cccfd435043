/* C library model, symbolic executor only (native replay uses the real libc). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <time.h>
#include <stdio.h>
#include "sym.h"

static int the_errno;
int *__errno_location(void) { return &the_errno; }

/* ---- ctype: branch free ---- */
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isalpha(int c) { return (((unsigned)c | 32) - 'a') < 26u; }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5u); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isprint(int c) { return (unsigned)c - 0x20 < 0x5f; }
int isgraph(int c) { return (unsigned)c - 0x21 < 0x5e; }
int iscntrl(int c) { return ((unsigned)c < 0x20) | (c == 0x7f); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | ((((unsigned)c | 32) - 'a') < 6u); }
int isascii(int c) { return (unsigned)c < 128; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }

/* ---- strings ---- */
size_t strnlen(const char *s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) ; return i; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char *)s; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), m = strnlen(s, n); memcpy(d + l, s, m); d[l + m] = 0; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *stpcpy(char *d, const char *s) { size_t l = strlen(s); memcpy(d, s, l + 1); return d + l; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t m = l < n - 1 ? l : n - 1; memcpy(d, s, m); d[m] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); if (l == n) return n + strlen(s); return l + strlcpy(d + l, s, n - l); }
static int inset(int c, const char *set) { int r = 0; for (; *set; set++) r |= (c == *set); return r; }
size_t strspn(const char *s, const char *set) { size_t i = 0; while (s[i] && inset(s[i], set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] && !inset(s[i], set)) i++; return i; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : NULL; }
char *strsep(char **sp, const char *set) { char *s = *sp, *e; if (!s) return NULL; e = s + strcspn(s, set); if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL; return s; }
char *strtok_r(char *s, const char *set, char **sv) { char *e; if (!s) s = *sv; s += strspn(s, set); if (!*s) { *sv = s; return NULL; } e = s + strcspn(s, set); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
char *strtok(char *s, const char *set) { static char *sv; return strtok_r(s, set, &sv); }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { const char *p = h; if (nl > hl) return NULL; for (size_t i = 0; i + nl <= hl; i++) if (sym_memeq(p + i, n, nl)) return (void *)(p + i); return NULL; }
void *memrchr(const void *h, int c, size_t n) { const unsigned char *p = h; while (n-- > 0) if (p[n] == (unsigned char)c) return (void *)(p + n); return NULL; }
void *rawmemchr(const void *h, int c) { const unsigned char *p = h; while (*p != (unsigned char)c) p++; return (void *)p; }
void *memccpy(void *d, const void *s, int c, size_t n) { char *x = d; const char *y = s; while (n-- > 0) if ((*x++ = *y++) == (char)c) return x; return NULL; }
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
void bzero(void *p, size_t n) { memset(p, 0, n); }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
void explicit_bzero(void *p, size_t n) { memset(p, 0, n); }
static int low(int c) { unsigned u = (unsigned)c; return (int)(u + (((u - 'A') < 26u) << 5)); }
int strncasecmp(const char *a, const char *b, size_t n) {
	/* one pass, accumulating without branching while both strings go on */
	int r = 0;
	for (size_t i = 0; i < n; i++) {
		int x = low((unsigned char)a[i]), y = low((unsigned char)b[i]);
		r = r ? r : x - y;
		if (!sym_issym((uint64_t)(unsigned char)a[i]) && !sym_issym((uint64_t)(unsigned char)b[i])) { if (x != y || !x) return r; }
		else if (a[i] == 0 || b[i] == 0) return r;
	}
	return r;
}
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncasecmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, (size_t)-1 >> 1); }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }

/* ---- numbers ---- */
static int dig(int c) { return isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99; }
static unsigned long long conv(const char *s, char **e, int base, int *neg, int *ovf) {
	const char *p = s; unsigned long long v = 0; int any = 0; *neg = 0; *ovf = 0;
	while (isspace((unsigned char)*p)) p++;
	if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
	if (base == 0) base = *p == '0' ? 8 : 10;
	for (;; p++) {
		int d = dig((unsigned char)*p);
		if (d >= base) break;
		any = 1;
		if (v > (~0ULL - (unsigned)d) / (unsigned)base) *ovf = 1;
		v = v * (unsigned)base + (unsigned)d;
	}
	if (e) *e = (char *)(any ? p : s);
	return any ? v : 0;
}
unsigned long long strtoull(const char *s, char **e, int b) { int n, o; unsigned long long v = conv(s, e, b, &n, &o); if (o) { errno = ERANGE; return ~0ULL; } return n ? -v : v; }
long long strtoll(const char *s, char **e, int b) { int n, o; unsigned long long v = conv(s, e, b, &n, &o);
	if (n) { if (o || v > 1ULL << 63) { errno = ERANGE; return (long long)(1ULL << 63); } return (long long)-v; }
	if (o || v > ~0ULL >> 1) { errno = ERANGE; return (long long)(~0ULL >> 1); } return (long long)v; }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
uintmax_t strtoumax(const char *s, char **e, int b) { return strtoull(s, e, b); }
intmax_t strtoimax(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
uintmax_t __isoc23_strtoumax(const char *s, char **e, int b) { return strtoull(s, e, b); }
intmax_t __isoc23_strtoimax(const char *s, char **e, int b) { return strtoll(s, e, b); }
int atoi(const char *s) { return (int)strtoll(s, NULL, 10); }
long atol(const char *s) { return strtoll(s, NULL, 10); }
long long atoll(const char *s) { return strtoll(s, NULL, 10); }

void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	char *b = base;
	if (n > 64) {	/* big: merge the sorted halves */
		size_t h = n / 2, i = 0, j = h, k = 0; char *m = malloc(n * sz);
		qsort(b, h, sz, cmp); qsort(b + h * sz, n - h, sz, cmp);
		while (i < h || j < n) { size_t *w = j >= n || (i < h && cmp(b + i * sz, b + j * sz) <= 0) ? &i : &j; memcpy(m + k++ * sz, b + (*w)++ * sz, sz); }
		memcpy(b, m, n * sz); free(m); return;
	}
	char *t = malloc(sz);
	for (size_t i = 1; i < n; i++) {
		size_t j = i;
		memcpy(t, b + i * sz, sz);
		while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); j--; }
		memcpy(b + j * sz, t, sz);
	}
	free(t);
}
int mergesort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { qsort(base, n, sz, cmp); return 0; }
int heapsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { qsort(base, n, sz, cmp); return 0; }
void *bsearch(const void *k, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	const char *b = base; while (n) { const char *m = b + (n / 2) * sz; int r = cmp(k, m); if (!r) return (void *)m; if (r > 0) { b = m + sz; n -= n / 2 + 1; } else n /= 2; } return NULL; }

const char *fmtcheck(const char *f, const char *d) {
	/* accepts exactly the conversions of d, in order (flags, width, precision free) */
	const char *p = f, *q = d;
	for (;;) {
		char a[4] = "", b[4] = "";
		for (int w = 0; w < 2; w++) {
			const char **r = w ? &q : &p; char *o = w ? b : a;
			for (;;) {
				while (**r && **r != '%') (*r)++;
				if (!**r) break;
				(*r)++;
				if (**r == '%') { (*r)++; continue; }
				while (**r == '-' || **r == '+' || **r == ' ' || **r == '#' || **r == '0' || isdigit((unsigned char)**r) || **r == '.') (*r)++;
				int k = 0;
				while (k < 2 && (**r == 'l' || **r == 'h' || **r == 'j' || **r == 'z' || **r == 'q' || **r == 't')) o[k++] = *(*r)++;
				char c = **r; if (c) (*r)++;
				if (c == 'd' || c == 'i' || c == 'u' || c == 'o' || c == 'x' || c == 'X') c = 'u'; else if (c != 's' && c != 'c' && c != 'p') c = '?';
				o[k] = c; break;
			}
		}
		if (strcmp(a, b)) return d;
		if (!a[0]) return f;
		if (strchr(a, '?')) return d;
	}
}
/* undo vis(3): octal and single character escapes */
int strnunvis_netbsd(char *d, size_t n, const char *s) {
	size_t o = 0;
	for (; *s; s++) {
		int c = (unsigned char)*s;
		if (c == '\\') {
			c = (unsigned char)*++s;
			if (c >= '0' && c <= '7') { c -= '0'; for (int k = 0; k < 2 && s[1] >= '0' && s[1] <= '7'; k++) c = c * 8 + *++s - '0'; }
			else if (c == 's') c = ' '; else if (c == 't') c = '\t'; else if (c == 'n') c = '\n';
			else if (c != '\\' && c != '#' && c != '*' && c != '?' && c != '[') return -1;
		}
		if (o + 1 >= n) return -1;
		d[o++] = (char)c;
	}
	d[o] = 0; return (int)o;
}
char *strerror(int e) { (void)e; return (char *)"error"; }
const char *getprogname(void) { return "aardwarc"; }
int tolower_(int c) { return tolower(c); }

/* ---- formatted output ---- */
struct ob { char *p; size_t n, l; };
static void oc(struct ob *o, char c) { if (o->l + 1 < o->n) o->p[o->l] = c; o->l++; }
static void on(struct ob *o, const char *s, size_t n) {
	if (o->l + n < o->n) { memcpy(o->p + o->l, s, n); o->l += n; } else for (size_t i = 0; i < n; i++) oc(o, s[i]); }
static void pad(struct ob *o, int n, char c) { while (n-- > 0) oc(o, c); }
extern double floor(double);
int vsnprintf(char *buf, size_t size, const char *f, va_list ap) {
	struct ob o = { buf, size, 0 };
	for (; *f; f++) {
		if (*f != '%') { oc(&o, *f); continue; }
		f++;
		int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
		for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
		if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } }
		else while (isdigit((unsigned char)*f)) width = width * 10 + *f++ - '0';
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) prec = prec * 10 + *f++ - '0'; }
		for (;; f++) { if (*f == 'l') lng++; else if (*f == 'j' || *f == 'z' || *f == 't' || *f == 'q') lng = 2; else if (*f == 'h') lng--; else break; }
		switch (*f) {
		case '%': oc(&o, '%'); break;
		case 'c': { int c = va_arg(ap, int); if (!left) pad(&o, width - 1, ' '); oc(&o, (char)c); if (left) pad(&o, width - 1, ' '); break; }
		case 's': {
			const char *s = va_arg(ap, const char *); if (!s) s = "(null)";
			size_t l = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s);
			if (!left) pad(&o, width - (int)l, ' ');
			on(&o, s, l);
			if (left) pad(&o, width - (int)l, ' ');
			break; }
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			unsigned long long v; int neg = 0; char t[72]; int k = 0; const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
			if (*f == 'p') { v = (uintptr_t)va_arg(ap, void *); alt = 1; }
			else if (*f == 'd' || *f == 'i') { long long x = lng >= 1 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) x = (short)x; if (lng == -2) x = (signed char)x; if (x < 0) { neg = 1; v = -(unsigned long long)x; } else v = (unsigned long long)x; }
			else { v = lng >= 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; }
			unsigned b = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
			if (b == 16 && zero && width >= 1 && width <= 16 && prec < 0 && !alt && (width == 16 || (v >> (4 * width)) == 0)) {
				for (k = 0; k < width; k++) t[k] = dg[(v >> (4 * k)) & 15];
			} else {
				while (v) { if (b == 16) { t[k++] = dg[v & 15]; v >>= 4; } else if (b == 8) { t[k++] = (char)('0' + (v & 7)); v >>= 3; } else { t[k++] = (char)('0' + v % 10); v /= 10; } }
				if (prec < 0 && k == 0) t[k++] = '0';
				while (k < prec) t[k++] = '0';
			}
			int extra = (neg || plus || space) ? 1 : 0; if (alt && b == 16) extra += 2;
			if (zero && !left && prec < 0) while (k + extra < width && k < 70) t[k++] = '0';
			if (!left) pad(&o, width - k - extra, ' ');
			if (neg) oc(&o, '-'); else if (plus) oc(&o, '+'); else if (space) oc(&o, ' ');
			if (alt && b == 16) { oc(&o, '0'); oc(&o, *f == 'X' ? 'X' : 'x'); }
			while (k > 0) oc(&o, t[--k]);
			break; }
		case 'e': case 'f': case 'g': case 'E': case 'G': {	/* %f only, six digits */
			double d = va_arg(ap, double); if (d < 0) { oc(&o, '-'); d = -d; }
			unsigned long long ip = (unsigned long long)d; double fr = d - (double)ip; char t[32]; int k = 0;
			do { t[k++] = (char)('0' + ip % 10); ip /= 10; } while (ip); while (k) oc(&o, t[--k]);
			int pr = prec < 0 ? 6 : prec; if (pr) oc(&o, '.');
			while (pr-- > 0) { fr *= 10; int g = (int)fr; oc(&o, (char)('0' + g)); fr -= g; }
			break; }
		default: oc(&o, *f); break;
		}
	}
	if (size) buf[o.l < size ? o.l : size - 1] = 0;
	return (int)o.l;
}
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1u << 30, f, ap); }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int vasprintf(char **o, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); char t[1]; int n = vsnprintf(t, 1, f, a2); va_end(a2); *o = malloc((size_t)n + 1); return vsnprintf(*o, (size_t)n + 1, f, ap); }
int asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); return r; }

/* ---- time formatting (ISO 8601 only) ---- */
struct tm *gmtime_r(const time_t *tp, struct tm *tm) {
	long t = *tp, d = t / 86400, s = t % 86400; int y = 1970;
	memset(tm, 0, sizeof *tm);
	for (;;) { int l = (y % 4 == 0 && y % 100) || y % 400 == 0; if (d < 365 + l) break; d -= 365 + l; y++; }
	static const int md[] = {31,28,31,30,31,30,31,31,30,31,30,31}; int m = 0;
	tm->tm_yday = (int)d;
	for (;; m++) { int l = md[m] + (m == 1 && ((y % 4 == 0 && y % 100) || y % 400 == 0)); if (d < l) break; d -= l; }
	tm->tm_year = y - 1900; tm->tm_mon = m; tm->tm_mday = (int)d + 1; tm->tm_hour = (int)(s / 3600); tm->tm_min = (int)(s / 60 % 60); tm->tm_sec = (int)(s % 60);
	return tm;
}
struct tm *gmtime(const time_t *tp) { static struct tm t; return gmtime_r(tp, &t); }
size_t strftime(char *b, size_t n, const char *f, const struct tm *tm) {
	struct ob o = { b, n, 0 }; char t[16];
	for (; *f; f++) {
		if (*f != '%') { oc(&o, *f); continue; }
		f++; int v = 0, w = 2;
		switch (*f) { case 'Y': v = tm->tm_year + 1900; w = 4; break; case 'm': v = tm->tm_mon + 1; break; case 'd': v = tm->tm_mday; break;
		case 'H': v = tm->tm_hour; break; case 'M': v = tm->tm_min; break; case 'S': v = tm->tm_sec; break; default: oc(&o, *f); continue; }
		snprintf(t, sizeof t, "%0*d", w, v); on(&o, t, strlen(t));
	}
	if (o.l >= n) return 0;
	b[o.l] = 0; return o.l;
}

/* ---- termination ---- */
void abort(void) { sym_throw(THROW_ABORT); }
void exit(int c) { sym_throw(THROW_EXIT + (c & 0xff)); }
void _exit(int c) { sym_throw(THROW_EXIT + (c & 0xff)); }
void _Exit(int c) { sym_throw(THROW_EXIT + (c & 0xff)); }
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { (void)a; (void)b; (void)c; (void)d; sym_throw(THROW_ABORT); }

/* ---- getopt (BSD: stops at the first operand) ---- */
int opterr = 1, optind = 1, optopt, optreset; char *optarg;
int env_getopt_impl(int argc, char *const *argv, const char *opts) {
	static const char *place = "";
	const char *q;
	if (optreset || !*place) {
		optreset = 0;
		if (optind >= argc || argv[optind][0] != '-' || !argv[optind][1]) { place = ""; return -1; }
		place = argv[optind] + 1;
		if (place[0] == '-' && !place[1]) { optind++; place = ""; return -1; }
	}
	if (*opts == '+') opts++;
	optopt = *place++;
	q = optopt == ':' ? NULL : strchr(opts, optopt);
	if (!q) { if (!*place) { optind++; place = ""; } return '?'; }
	if (q[1] != ':') { optarg = NULL; if (!*place) { optind++; place = ""; } return optopt; }
	if (*place) optarg = (char *)place;
	else if (++optind >= argc) { place = ""; return *opts == ':' ? ':' : '?'; }
	else optarg = argv[optind];
	place = ""; optind++;
	return optopt;
}
#undef getopt
int bsd_getopt(int argc, char *const *argv, const char *opts) { return env_getopt_impl(argc, argv, opts); }
int getopt(int argc, char *const *argv, const char *opts) { return env_getopt_impl(argc, argv, opts); }
