/* C18: sizes, configuration parser, archive settings */
#include <errno.h>
#include "hx.h"
/* ---- sizes: built from parts, so that the exact value is known ---- */
void h_vnum(void)
{
	char s[64]; int n = 0, nd, nf, sp; uint64_t mant = 0; int e10 = 0, shift = 0, refuse = 0, digits = 0;
	env_install_vas();
	int decor = (int)sym_pick(5), sign = 0; sp = 0;
	if (decor == 1) s[n++] = ' '; else if (decor == 2) s[n++] = '\t';
	if (decor == 3) { sign = 1; s[n++] = '+'; } else if (decor == 4) { sign = 2; s[n++] = '-'; }
	nd = (int)sym_range(0, sym_arg("digits", 2)); (void)sp;
	for (int i = 0; i < nd; i++) { int d = i ? (int)sym_pick(4) * 3 : (int)sym_pick(10); s[n++] = (char)('0' + d); mant = mant * 10 + d; digits++; }
	nf = (int)sym_range(0, 3) - 1;
	if (nf >= 0) { s[n++] = '.'; for (int i = 0; i < nf; i++) { int d = 1 + 4 * (int)sym_pick(2); s[n++] = (char)('0' + d); mant = mant * 10 + d; e10--; digits++; } }
	int ex = (int)sym_pick(6);	/* none, e2, e+1, e-1, e10, e-02 */
	if (ex >= 4) { const char *x = ex == 4 ? "e10" : "E-02"; while (*x) s[n++] = *x++; e10 += ex == 4 ? 10 : -2; }
	else if (ex) { s[n++] = ex & 1 ? 'e' : 'E'; if (ex == 2) s[n++] = '+'; if (ex == 3) s[n++] = '-'; s[n++] = (char)('0' + (ex == 1 ? 2 : 1)); e10 += ex == 1 ? 2 : ex == 2 ? 1 : -1; }
	if (sym_bool()) s[n++] = ' ';
	int suf = (int)sym_pick(7);
	static const char sl[] = "kmgtp", su[] = "KMGTP";
	if (suf >= 1 && suf <= 5) { s[n++] = sym_bool() ? sl[suf - 1] : su[suf - 1]; shift = suf * 10; }
	int b = (int)sym_pick(4); if (b == 1) s[n++] = 'b'; else if (b == 2) s[n++] = 'B'; else if (b == 3) { s[n++] = '!'; refuse = 1; }
	if (suf == 6) { s[n++] = "xqQz%"[sym_pick(5)]; refuse = 1; }
	s[n] = 0;
	if (digits == 0) refuse = 1;
	if (sign == 2 && mant != 0) refuse = 1;
	uintmax_t r = 0x1234567;
	const char *err = VNUM_2bytes(s, &r, 0);
	if (refuse) { sym_assert(err != NULL && err[0] != 0, "C18", "not a size, but accepted"); sym_reach("refused"); return; }
	if (sign == 2) return;	/* -0 */
	/* exact value mant * 2^shift * 10^e10 */
	uint64_t div = 1, mul = 1, q, rem;
	for (int i = 0; i < e10; i++) mul *= 10;
	for (int i = 0; i > e10; i--) div *= 10;
	q = ((mant / div) << shift) * mul + ((mant % div) << shift) / div; rem = ((mant % div) << shift) % div;
	if ((mant / div) >> (63 - shift) || ((mant / div) << shift) >= (1ULL << 62) / mul) { sym_reach("range"); return; }
	sym_assert(err == NULL, "C18", "valid size refused");
	uint64_t tol = q >> 50;
	if (rem == 0) sym_assert(r == q, "C18", "size not converted exactly");
	else sym_assert(r + tol >= q && r <= q + 1 + tol, "C18", "size off by more than rounding");
	if (shift && tol == 0 && rem * 4 < div && rem) sym_assert(r == q, "C18", "size not rounded to nearest");
	if (shift && tol == 0 && rem * 4 > div * 3) sym_assert(r == q + 1, "C18", "size not rounded to nearest");
	sym_note(1, r);
	sym_reach("converted");
}
/* arbitrary text: no crash, refused unless it has the shape of a size; values out of range refused */
void h_vnum_any(void)
{
	char s[8]; size_t n = sym_range(0, sym_arg("n", 3)); uintmax_t r = 77;
	env_install_vas();
	sym_bytes_range(s, n, 1, 255); s[n] = 0;
	const char *err = VNUM_2bytes(s, &r, 0);
	int hasdigit = 0, hasminus = 0;
	for (size_t i = 0; i < n; i++) { hasdigit |= s[i] >= '0' && s[i] <= '9'; hasminus |= s[i] == '-'; }
	if (err == NULL) {
		sym_assert(hasdigit, "C18", "size without digits accepted");
		for (size_t i = 0; i < n; i++) sym_assert((s[i] >= '0' && s[i] <= '9') | (s[i] == '.') | (s[i] == '+') | (s[i] == '-') | hx_isspace(s[i]) | (strchr("eEkKmMgGtTpPbB", s[i]) != NULL), "C18", "foreign character accepted in a size");
		sym_reach("accepted");
	} else sym_reach("refused");
	sym_assert(VNUM_2bytes(NULL, &r, 0) != NULL, "C18", "missing size accepted");
}
void h_vnum_range(void)
{
	static const char *bad[] = { "-1", "-1k", "-5.5G", "1e30", "18446744073709551616", "20000000p", "16384p", "1e300T", "1e400", "9e18p", "-.5T" };
	static const char *good[] = { "9007199254740992", "3.5G", "1e15", "0", "8191p", "0.5k", "1024b", "1 kB" };
	static const uint64_t gv[] = { 9007199254740992ULL, 3758096384ULL, 1000000000000000ULL, 0, 8191ULL << 50, 512, 1024, 1024 };
	env_install_vas(); uintmax_t r = 0;
	unsigned i = (unsigned)sym_pick(19);
	if (i < 11) sym_assert(VNUM_2bytes(bad[i], &r, 0) != NULL, "C18", "size that is negative or out of range is accepted");
	else { sym_assert(VNUM_2bytes(good[i - 11], &r, 0) == NULL && r == gv[i - 11], "C18", "size not converted exactly"); }
	sym_note(1, r);
	uint64_t rel = sym_range(0, 3);
	unsigned d = (unsigned)sym_pick(10); char p[8] = { (char)('0' + d), '0', '%', 0 };
	const char *e = VNUM_2bytes(p, &r, rel * 1000);
	if (rel == 0) sym_assert(e != NULL, "C18", "percentage of nothing accepted");
	else sym_assert(e == NULL && r == rel * 100 * d, "C18", "percentage wrong");
}
/* ---- parser ---- */
struct ent { int sec, name, arg; };	/* offsets into the text, -1: none */
static char txt[64]; static size_t tn;
static struct ent ents[40]; static int nent, secs[40], nsec, perr; static char tcopy[64];
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ceq(const char *a, const char *b) { for (; *a && lc(*a) == lc(*b); a++, b++) ; return lc(*a) == lc(*b); }
static void parse_oracle(void)
{
	size_t i = 0; int sec = -1;
	memcpy(tcopy, txt, tn); tcopy[tn] = 0;
	while (i < tn && !perr) {
		size_t s = i, e = i; while (e < tn && tcopy[e] != '\n') e++;
		i = e + 1;
		for (size_t k = s; k < e; k++) if (tcopy[k] == '#') { e = k; break; }
		while (e > s && hx_isspace(tcopy[e - 1])) e--;
		if (e == s) continue;
		if (e < sizeof tcopy) tcopy[e] = 0;
		if (!hx_isspace(tcopy[s])) {
			size_t c = s; while (c < e && tcopy[c] != ':') c++;
			if (c + 1 != e) { perr = 1; break; }
			tcopy[c] = 0;
			for (int k = 0; k < nsec; k++) if (ceq(tcopy + secs[k], tcopy + s)) perr = 2;
			if (perr) break;
			sec = nsec; secs[nsec++] = (int)s;
		} else {
			if (sec < 0) { perr = 1; break; }
			size_t c = s; while (hx_isspace(tcopy[c])) c++;
			size_t a = c; while (a < e && !hx_isspace(tcopy[a])) a++;
			ents[nent].sec = sec; ents[nent].name = (int)c; ents[nent].arg = -1;
			if (a < e) { tcopy[a++] = 0; while (hx_isspace(tcopy[a])) a++; ents[nent].arg = (int)a; }
			nent++;
		}
	}
}
static int it_sec, it_at, it_stop;
static int iter(void *priv, const char *name, const char *arg)
{
	sym_assert(priv == &it_sec, "C18", "private pointer");
	while (it_at < nent && ents[it_at].sec != it_sec) it_at++;
	sym_assert(it_at < nent, "C18", "entry from another section");
	sym_assert(!strcmp(name, tcopy + ents[it_at].name), "C18", "entry name differs");
	sym_assert((arg == NULL) == (ents[it_at].arg < 0), "C18", "entry argument lost or invented");
	if (arg) sym_assert(!strcmp(arg, tcopy + ents[it_at].arg), "C18", "entry argument differs");
	it_at++;
	return it_stop;
}
static void upper(char *d, const char *s) { while ((*d++ = (char)(*s >= 'a' && *s <= 'z' ? *s - 32 : *s))) s++; }
static void check_conf(void)
{
	int bad = 0; char up[64];
	for (size_t i = 0; i < tn; i++) { unsigned char c = (unsigned char)txt[i]; if (c == 0 || c == 0xc0 || c == 0xc1 || c > 0xf4) bad = 1; }
	env_mkfile("/c", txt, tn);
	struct config *c = Config_Read("/c");
	if (bad) { sym_assert(c == NULL, "C18", "NUL or invalid UTF-8 accepted"); sym_reach("bogus bytes"); return; }
	sym_assert(c != NULL, "C18", "configuration file not read");
	parse_oracle();
	if (perr) { size_t n; env_errtxt(&n); sym_assert(n > 0, "C18", "malformed configuration without a message"); sym_reach("malformed"); return; }
	sym_reach("well-formed");
	for (int s = 0; s < nsec; s++) {
		int cnt = 0, first = -1; for (int k = 0; k < nent; k++) if (ents[k].sec == s) { if (!cnt) first = k; cnt++; }
		upper(up, tcopy + secs[s]);
		it_sec = s; it_at = 0; it_stop = 0;
		int r = Config_Iter(c, up, &it_sec, iter);
		sym_assert((r == 0) == (cnt > 0), "C18", "iteration result");
		int seen = 0; for (int k = 0; k < it_at; k++) if (ents[k].sec == s) seen++;
		sym_assert(seen == cnt, "C18", "entries missing from iteration");
		const char *np = "-", *ap = "-";
		r = Config_Get(c, up, &np, &ap);
		sym_assert((r == 0) == (cnt == 1), "C18", "single entry of a section");
		if (cnt == 1) { sym_assert(!strcmp(np, tcopy + ents[first].name) && (ap == NULL) == (ents[first].arg < 0), "C18", "single entry differs"); }
		if (cnt > 0 && strcmp(tcopy + ents[first].name, "*")) {
			upper(up, tcopy + ents[first].name); ap = "-";
			sym_assert(Config_Find(c, tcopy + secs[s], up, &ap) == 0, "C18", "entry not found");
			sym_assert((ap == NULL) == (ents[first].arg < 0), "C18", "found entry has wrong argument");
			if (ap) sym_assert(!strcmp(ap, tcopy + ents[first].arg), "C18", "found entry has wrong argument");
			int star = 0; for (int k = 0; k < nent; k++) if (ents[k].sec == s && !strcmp(tcopy + ents[k].name, "*")) star = 1;
			if (!star) sym_assert(Config_Find(c, tcopy + secs[s], "\x01nope", &ap) != 0, "C18", "missing entry found");
		}
	}
	if (nsec == 0 || strcmp("none", tcopy + secs[0])) sym_assert(Config_Get(c, "\x01nosec", NULL, NULL) != 0, "C18", "missing section found");
	sym_note(1, nsec); sym_note(2, nent);
}
void h_conf_any(void)
{
	hx_init();
	tn = sym_range(0, sym_arg("n", 5));
	sym_bytes(txt, tn);
	check_conf();
}
void h_conf_window(void)
{
	static const char *t[] = { "A:\n u v\nb:\n w x # y\n z\n", "\tq\nA:\n\tu\n", "x.y:\n n  a b\n#c\n\nX.z:\n * 1\n" };
	hx_init();
	const char *p = t[sym_pick(3)]; tn = strlen(p); memcpy(txt, p, tn);
	size_t w = sym_arg("w", 2), at = sym_pick(tn - w + 1);
	sym_bytes(txt + at, w);
	check_conf();
}
/* ---- settings ---- */
void h_settings(void)
{
	hx_init();
	char b[400]; int n = 0; struct vsb *e = VSB_new_auto(); size_t el;
	int which = (int)sym_pick(6); char idb[16] = "128", pfx[16] = "http://a/", dir[16] = "/s/", base[24] = "%08u.warc.gz", mx[16] = "3.5G", srt[16] = "10M";
	int okid = 1, okp = 1, okd = 1, okb = 1, okm = 1, oks = 1; unsigned idv = 128; uint64_t mxv = 3758096384ULL; 
	if (which == 0) { int k = (int)sym_range(1, 3); idv = 0; for (int i = 0; i < k; i++) { int d = (int)sym_pick(10); idb[i] = (char)('0' + d); idv = idv * 10 + d; } idb[k] = 0; if (idb[0] == '0') { okid = -1; } else okid = idv >= 64 && idv <= 256 && !(idv & 3); }
	if (which == 1) { pfx[8] = (char)sym_u(33, 126); sym_assume(pfx[8] != '#'); okp = pfx[8] == '/'; }
	if (which == 2) { dir[2] = (char)sym_u(33, 126); sym_assume(dir[2] != '#'); okd = dir[2] == '/'; }
	if (which == 3) { static const char *bb[] = { "%u", "%d.gz", "x%05u", "a/%u", "%s", "plain", "%u%u", "%lu", "%8u.w", "%%%u" }; static const int bo[] = { 1, 1, 1, 0, 0, 0, 0, 0, 1, 1 }; int k = (int)sym_pick(10); strcpy(base, bb[k]); okb = bo[k]; if (k == 1) okb = -1; }
	if (which == 4) { static const char *mm[] = { "1", "20000", "4G", "bogus", "-1", "1e30", "1.5M", "16384p" }; static const uint64_t mv[] = { 1, 20000, 4294967296ULL, 0, 0, 0, 1572864, 0 }; int k = (int)sym_pick(8); strcpy(mx, mm[k]); okm = !(k == 3 || k == 4 || k == 5 || k == 7); mxv = mv[k]; }
	if (which == 5) { static const char *ss[] = { "4095", "4096", "4k", "4127", "1M", "zz", "0", "-5k" }; static const int so[] = { 0, 1, 1, 1, 1, 0, 0, 0 }; int k = (int)sym_pick(8); strcpy(srt, ss[k]); oks = so[k]; }
	n = snprintf(b, sizeof b, "WARC-Record-ID:\n\t%s %s\nsilo.directory:\n\t%s\nsilo.max_size:\n\t%s\nsilo.basename:\n\t%s\nindex.sort_size:\n\t%s\n", pfx, idb, dir, mx, base, srt);
	env_mkfile("/cfg", b, (size_t)n);
	struct aardwarc *aa = AardWARC_New("/cfg", e);
	sym_assert(VSB_finish(e) == 0, "C18", "message buffer"); el = (size_t)VSB_len(e);
	int all = okid == 1 && okp && okd && okb == 1 && okm && oks, maybe = okid == -1 || okb == -1;
	if (aa == NULL) { sym_assert(!all, "C18", "valid settings refused"); sym_assert(el > 0, "C18", "settings refused without a message"); sym_reach("refused"); return; }
	sym_assert(all || maybe, "C18", "archive opened with a setting outside its limits");
	sym_assert(aa->id_size >= 16 && aa->id_size <= 64, "C18", "ID length outside its limits");
	if (okid == 1) sym_assert(aa->id_size == idv / 4, "C18", "ID length differs from the setting");
	sym_assert(!strcmp(aa->prefix, pfx) && !strcmp(aa->silo_dirname, dir), "C18", "setting not taken over");
	sym_assert(aa->silo_maxsize == (off_t)mxv && aa->silo_maxsize > 0, "C18", "silo size differs from the setting");
	sym_assert(aa->index_sort_size >= 4096 && aa->index_sort_size % 32 == 0, "C18", "sort buffer size outside its limits");
	sym_reach("opened");
}
/* defaults and missing settings */
void h_settings_missing(void)
{
	hx_init();
	char b[300]; int n = 0, a = sym_bool(), c = sym_bool(), d = sym_bool(); struct vsb *e = VSB_new_auto();
	if (a) n += sprintf(b + n, "WARC-Record-ID:\n\thttp://q/\n");
	if (c) n += sprintf(b + n, "silo.directory:\n\t/s/\n");
	if (d) n += sprintf(b + n, "index.sort_size:\n\t5k\n\t6k\n");
	if (n == 0) b[0] = ' ', n = 1;
	env_mkfile("/cfg", b, (size_t)n);
	struct aardwarc *aa = AardWARC_New("/cfg", e);
	sym_assert((aa != NULL) == (a && c), "C18", "required settings");
	AZ(VSB_finish(e));
	if (aa) {
		sym_assert(aa->id_size == 32 && aa->silo_maxsize == 3758096384LL && aa->index_sort_size == 10 << 20 && !strcmp(aa->silo_basename, "%08u.warc.gz"), "C18", "defaults");
		sym_assert(aa->cache_first_non_silo == 0 && aa->cache_first_space_silo == 0, "C22", "cache hints do not start at zero");
	} else sym_assert(VSB_len(e) > 0, "C18", "refused without a message");
	struct vsb *e2 = VSB_new_auto();
	sym_assert(AardWARC_New("/nonexistent", e2) == NULL, "C18", "archive opened without a configuration");
	AZ(VSB_finish(e2)); sym_assert(VSB_len(e2) > 0, "C18", "refused without a message");
	sym_assert(Config_Read("/s") == NULL, "C18", "directory accepted as configuration");
}
