/* C25: CGI */
#include "hx_pop.h"
static char path[200], acc[60];
/* is gzip among the codings accepted?  (RFC 9110: list of coding [;q=weight]) */
static int accepted(const char *a)
{
	while (*a) {
		char w[40]; int n = 0; while (*a && *a != ',') { if (*a != ' ' && *a != '\t' && n < 39) w[n++] = *a; a++; } if (*a) a++;
		w[n] = 0;
		char *q = strchr(w, ';'); if (q) *q++ = 0;
		if (strcmp(w, "gzip")) continue;
		if (!q) return 1;
		if (strncmp(q, "q=", 2)) return 1;
		for (q += 2; *q; q++) if (*q >= '1' && *q <= '9') return 1;
		return 0;
	}
	return 0;
}
static int status_of(const char *v) { int s = 0; for (int i = 0; i < 3; i++) { if (v[i] < '0' || v[i] > '9') return -1; s = s * 10 + v[i] - '0'; } return v[3] == 0 || v[3] == ' ' ? s : -1; }
/* check a response: want (or NULL: error page) */
static void response(const struct pobj *want, const char *ctype, const char *a)
{
	size_t on; const char *o = env_out(&on), *end = o + on; char ct[80] = "", ce[40] = "", cl[40] = "", st[40] = "";
	while (o < end && *o != '\n') {
		char f[100]; int n = 0; while (o < end && *o != '\n') { if (n < 99 && *o != '\r') f[n++] = *o; o++; } f[n] = 0;
		char *v = strchr(f, ':');
		sym_assert(v != NULL && o < end && v > f, "C25", "response has a malformed header line");
		if (!v || o >= end) return;
		o++; *v++ = 0; while (*v == ' ') v++;
		char *to = !strcmp(f, "Content-Type") ? ct : !strcmp(f, "Content-Encoding") ? ce : !strcmp(f, "Content-Length") ? cl : !strcmp(f, "Status") ? st : NULL;
		if (to) { sym_assert(!*to, "C25", "response has a header twice"); if (strlen(v) < 40) strcpy(to, v); }
	}
	sym_assert(o < end, "C25", "response without an end of the headers");
	if (o >= end) return;
	o++; size_t n = (size_t)(end - o); int s = status_of(st);
	sym_assert(s >= 100 && *ct, "C25", "response without a status or content type");
	if (!want) {
		sym_assert(s >= 400, "C25", "error page with a status of success");
		sym_assert(!strcmp(ct, "text/html") && !*ce && n > 13 && !memcmp(o, "<html>", 6) && !memcmp(end - 7, "</html>", 7), "C25", "error page is no HTML page");
		if (*cl) sym_assert(num(cl) == (long)n, "C25", "Content-Length of an error page is wrong");
		sym_reach("error page"); return;
	}
	sym_assert(s == 200, "C25", "an object in the archive is not delivered");
	if (s != 200) return;
	sym_assert(!strcmp(ct, ctype), "C25", "wrong content type");
	sym_assert(*cl && num(cl) == (long)n, "C25", "Content-Length is not the number of bytes which follow");
	if (!*ce) { sym_assert(n == want->n && sym_memeq(o, want->b, n), "C25", "the bytes delivered are not those of the object"); sym_reach("plain"); return; }
	sym_assert(!strcmp(ce, "gzip") && accepted(a), "C25", "encoded in a way the client does not accept");
	uint8_t *b; size_t bn, used; int ok = env_gunzip((const uint8_t *)o, n, &b, &bn, &used);
	sym_assert(ok && used == n && bn == want->n && sym_memeq(b, want->b, bn), "C25", "the gzip data delivered is not that of the object");
	sym_reach("gzip");
}
static void env3(const char *g, const char *m, const char *p) { env_clearenv(); if (g) env_setenv("GATEWAY_INTERFACE", g); if (m) env_setenv("REQUEST_METHOD", m); if (p) env_setenv("PATH_INFO", p); }
void h_cgi(void)
{
	static const char *ae[] = { NULL, "gzip", "deflate, gzip;q=1.0, *;q=0.5", "identity", "", "gzip;q=0", "br, gzip; q=0.000, deflate", "gzip ;q=0.1", "gzip;q=0,identity", "br;q=0,gzip" };
	arch_init((uint64_t[]){ 1900, 9000 }[sym_pick((uint64_t)sym_arg("maxs", 2))]);
	pop_share((int[]){ 24, 0, 8 }[sym_pick((uint64_t)sym_arg("modes", 3))]);
	pop_list((int)((2 + sym_pick((uint64_t)sym_arg("lists", NPOP))) % NPOP), (int)sym_arg("sym", 1));
	if (nP < 5) { struct pobj *o = &P_[nP]; o->n = 300; o->b = malloc(300); pop_fill(o->b, 300, 0, 77, 0); sym_need(store_(o->b, o->n, (const char *[]){ "store", "-m", "text/plain", NULL }, o->id) == 0, "C01", "store does not succeed"); nP++; }
	arch_read(arch_limit); sym_need(!arch_bad, "C01,C03,C05", arch_why ? arch_why : "?");
	if (sym_arg("hk", 1) && sym_bool()) cli("housekeeping");
	/* which record is asked for, and how */
	struct rec *r = &R[sym_pick((uint64_t)nR)]; struct pobj *want = NULL; const char *ctype = r->ctype; char id[70]; strcpy(id, r->id);
	int change = (int)sym_pick(3);	/* 0: as it is, 1: another digit, 2: short */
	if (change == 1) id[31] = id[31] == '0' ? '1' : '0';
	if (change == 2) id[(size_t[]){ 31, 1, 0 }[sym_pick(3)]] = 0;
	for (int i = 0; i < nP; i++) if (!strcmp(bare(P_[i].id), id)) want = &P_[i];
	if (want) for (int i = 0; i < nR; i++) if (!strcmp(R[i].id, id) && strcmp(R[i].type, "continuation")) ctype = R[i].ctype;
	int form = change ? 0 : (int)sym_pick(4); path[0] = 0;
	if (form != 1) strcpy(path, "/"); if (form == 2) strcat(path, HX_PREFIX); size_t k = strlen(path);
	for (size_t i = 0; i <= strlen(id); i++) path[k + i] = (char)(form == 3 && id[i] >= 'a' ? id[i] - 32 : id[i]);
	int a = change ? (int)sym_pick(2) : (int)sym_pick(10);
	env3("CGI/1.1", "GET", path); if (ae[a]) env_setenv("HTTP_ACCEPT_ENCODING", ae[a]); if (ae[a]) strcpy(acc, ae[a]);
	struct snaps sn; snap_take(&sn);
	int e = cli("cgi");
	sym_assert(e >= 0, "C25", "cgi aborts");
	if (e < 0) return;
	sym_assert(snap_same(&sn), "C25,C04", "cgi changes the archive");
	response(want, ctype, acc);
}
/* PATH_INFO of any characters */
void h_cgi_path(void)
{
	arch_init(1900); pop_add(0, 3, 0); pop_add(1, 5, 0);
	int w = (int)sym_pick(4); struct pobj *want = &P_[sym_pick(2)]; char c;
	snprintf(path, sizeof path, "/%s", w == 3 ? want->id : bare(want->id));
	if (w < 2) { size_t p = (size_t[]){ 0, 1, 16, 32, 33 }[sym_pick(5)], l = strlen(path); char o = path[p]; c = path[p] = (char)sym_u(1, 255); if (p == l) path[l + 1] = 0; if ((c | (c >= 'A' && c <= 'Z' ? 32 : 0)) != o) want = NULL; if (p == 0 && !want) sym_reach("other first character"); }
	if (w == 2) { size_t n = sym_range(0, (uint64_t)sym_arg("n", 3)); for (size_t i = 0; i < n; i++) path[i] = (char)sym_u(1, 255); path[n] = 0; want = NULL; }
	if (w == 3) { int f = (int)sym_pick(3); if (f == 1) { memmove(path + 3, path, strlen(path) + 1); path[0] = '/'; path[1] = 'x'; path[2] = '/'; want = NULL; } if (f == 2) { path[strlen(path) - 1] = 0; want = NULL; } }
	env3("CGI/1.1", "GET", path);
	int e = cli("cgi");
	sym_assert(e >= 0, "C25", "cgi aborts");
	if (e >= 0) response(want, "application/octet-stream", "");
}
/* requests which are none */
void h_cgi_env(void)
{
	static const char *g[] = { "CGI/1.1", NULL, "", "CGI/1.0", "CGI/1.10", "cgi/1.1", " CGI/1.1" }, *m[] = { "GET", NULL, "", "POST", "HEAD", "get", "GETS" };
	size_t on, en;
	arch_init(1900); pop_add(0, 3, 0); snprintf(path, sizeof path, "/%s", bare(P_[0].id));
	int a = (int)sym_pick(7), b = (int)sym_pick(7), c = (int)sym_pick(2), d = (int)sym_pick(3); static char gg[10], mm[5]; strcpy(gg, g[a] ? g[a] : ""); strcpy(mm, m[b] ? m[b] : "");
	int good = !a && !b && !c && !d;
	if (good) { int at = (int)sym_pick(11); char *p = at < 7 ? gg + at : at < 10 ? mm + at - 7 : NULL; if (p) { char o = *p; *p = (char)sym_u(1, 255); good = *p == o; } }
	env3(g[a] ? gg : NULL, m[b] ? mm : NULL, c ? NULL : path);
	int e = d ? d == 1 ? cli("cgi", path) : cli("cgi", "-q") : cli("cgi");
	(void)env_out(&on); (void)env_errtxt(&en);
	if (good) { sym_assert(e == 0, "C25", "a good request is refused"); if (e == 0) response(&P_[0], "application/octet-stream", ""); sym_reach("good"); }
	else { sym_assert(e > 0 && on == 0 && en > 0, "C25", "a request without the CGI environment is not refused"); sym_reach("bad"); }
}
