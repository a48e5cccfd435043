/* C23: filter */
#include "hx_pop.h"
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char line[6][200], key[6][70]; static int nL; static char text[1400];
/* one input line: the ID of some record, as is or changed */
static void mkline(int any)
{
	static const size_t pos[] = { 24, 23, 0, 7, 31 };
	char *l = line[nL], *k = key[nL]; size_t il = arch_idbits / 4;
	struct rec *r = &R[sym_pick((uint64_t)(nR < 4 ? nR : 4))];
	strcpy(k, r->id);
	int w = (int)sym_pick((uint64_t)sym_arg("ways", 6));	/* 0: as it is; else a digit changed */
	if (w) { size_t p = pos[w - 1]; if (p >= il) p = il - 1; if (any) { k[p] = (char)(sym_bool() ? sym_u('0', '9') : sym_u('a', 'f')); } else { int f = k[p] == '0' ? 1 : k[p] == 'f' ? 0 : sym_arg("both", 0) ? sym_bool() : 0; k[p] = f ? 'f' : '0'; } }
	int form = (int[]){ 0, 5, 1, 3, 2, 4 }[sym_pick((uint64_t)sym_arg("forms", 6))];
	l[0] = 0;
	if (form == 1) strcpy(l, HX_PREFIX); if (form == 2) strcpy(l, "HTTP://X.y/");
	size_t n = strlen(l);
	for (size_t i = 0; i < il; i++) l[n + i] = (char)((form == 3 || form == 5) && k[i] >= 'a' ? k[i] - 32 : k[i]);
	l[n + il] = 0;
	if (form == 4 || form == 5) strcat(l, " /some/file with text");
	nL++;
}
void h_filter(void)
{
	size_t on, en; char want[1600]; const char *args[12]; int n = 0;
	if (sym_arg("short", 0)) arch_idbits = 64;
	arch_init(1900);
	pop_share((int[]){ arch_idbits == 64 ? 8 : 24, 0, 8 }[(sym_pick((uint64_t)sym_arg("modes", 3)) + (uint64_t)sym_arg("mode0", 0)) % 3]);
	pop_list((int)((2 + sym_pick((uint64_t)sym_arg("lists", NPOP))) % NPOP), 0);
	arch_read(arch_limit); sym_need(!arch_bad, "C01,C03,C05", arch_why ? arch_why : "?");
	int st = (int)sym_pick((uint64_t)sym_arg("idx", 3));
	if (st == 1) cli("housekeeping");
	if (st == 2) { cli("housekeeping"); pop_add(0, 99, 0); arch_read(arch_limit); }
	int lines = (int)sym_range((uint64_t)sym_arg("lo", 1), (uint64_t)sym_arg("n", 2)), any = (int)sym_arg("any", 0);
	for (int i = 0; i < lines; i++) mkline(any);
	int vonly = (int)sym_arg("vonly", 0), s = sym_bool(), mode = vonly ? 2 : (int)sym_pick(4), io = any ? 0 : (int)sym_pick((uint64_t)sym_arg("io", 16)), file = io & 3, o = io < 4 ? io & 1 : io < 8 ? !(io & 1) : (io >> 2) & 1, blank = io < 8 ? (io >> 1) & 1 : !((io >> 1) & 1);
	text[0] = 0; char *second = text;
	for (int i = 0; i < lines; i++) { if (file == 3 && i == 1) second = text + strlen(text); if (blank && i == lines - 1) strcat(text, "\n"); strcat(text, line[i]); strcat(text, "\n"); }
	args[n++] = "filter"; if (s) args[n++] = "-s"; if (mode == 1 || mode == 3) args[n++] = "-r"; if (mode >= 2) args[n++] = "-v"; if (o) { args[n++] = "-o"; args[n++] = "/res"; }
	/* 0: standard input, 1: a file, 2: "-", 3: file and "-" */
	if (file == 1) { env_mkfile("/l", text, strlen(text)); args[n++] = "/l"; }
	if (file == 2) args[n++] = "-";
	if (file == 3) { size_t a = second == text ? strlen(text) : (size_t)(second - text); env_mkfile("/l", text, a); args[n++] = "/l"; args[n++] = "-"; env_set_stdin(text + a, strlen(text + a)); }
	else if (file != 1) env_set_stdin(text, strlen(text));
	args[n] = NULL;
	struct snaps sn; snap_take(&sn);
	int r = cliv(args); const char *out = env_out(&on); (void)env_errtxt(&en);
	sym_assert(r == 0, "C23", "filter fails");
	if (r) return;
	if (o) { size_t k; out = (const char *)env_data("/res", &k); sym_assert(on == 0 && out, "C23", "filter -o does not write to the file alone"); on = k; if (!out) return; }
	sym_assert(snap_same(&sn), "C23,C04", "filter changes the archive");
	/* one line after the other */
	size_t at = 0, kd = arch_idbits / 4 < 24 ? arch_idbits / 4 : 24; if (s) kd = arch_idbits / 4;
	for (int i = 0; i < lines; i++) {
		int f = 0;
		for (int q = 0; q < nR; q++) f |= sym_memeq(R[q].id, key[i], kd);
		f = (int)sym_concretize((uint64_t)(f != 0));
		if (f) sym_reach("present"); else sym_reach("missing");
		if (mode < 2 && f != mode) continue;
		size_t l = mode >= 2 ? 2 : 0; if (l) memcpy(want, f ? "1 " : "0 ", 2);
		size_t k = strlen(line[i]); memcpy(want + l, line[i], k); l += k; want[l++] = '\n';
		sym_assert(on - at >= l, "C23", "filter leaves out a line it should print");
		if (on - at < l) return;
		sym_assert(sym_memeq(out + at, want, l), "C23", "filter prints the wrong lines, changes them, or reports a wrong state");
		at += l;
	}
	sym_assert(at == on, "C23", "filter prints a line it should not print");
}
/* lines which are no IDs */
void h_filter_bad(void)
{
	size_t on, en; size_t il = arch_idbits / 4;
	arch_init(1900); pop_add(0, 3, 0);
	int kind = (int)sym_pick(4), good = 0; char l[9000]; strcpy(l, bare(P_[0].id)); size_t p;
	if (kind == 0) { p = (size_t[]){ 0, 1, 15, 16, 31 }[sym_pick(5)]; l[p] = (char)sym_u(1, 255); if (l[p] == '\n') return; good = hx_hex(l[p]); }	/* any other character */
	if (kind == 1) { l[sym_range(1, il - 1)] = 0; }										/* short */
	if (kind == 2) { char t[100]; snprintf(t, sizeof t, "%s%s", "http://x.y", l); strcpy(l, t); }				/* broken prefix */
	if (kind == 3) { size_t k = (size_t[]){ 4095, 4096, 4094, 8192 }[sym_pick(4)]; memset(l + il, 'z', k); l[k] = 0; good = -1; }
	strcat(l, "\n");
	if (sym_bool()) { memmove(l + il + 1, l, strlen(l) + 1); memcpy(l, bare(P_[0].id), il); l[il] = '\n'; }			/* after a good one */
	env_set_stdin(l, strlen(l));
	int r = cli("filter", "-v"); (void)env_out(&on); (void)env_errtxt(&en);
	if (good < 0) sym_assert(r >= 0 && (r ? on == 0 && en > 0 : on > 0 && en == 0), "C23", "long line is neither filtered nor refused");
	else if (good) { sym_assert(r == 0 && on > 0, "C23", "filter refuses an ID"); sym_reach("good"); }
	else { sym_assert(r > 0 && on == 0 && en > 0, "C23", "filter does not refuse a line which is no ID"); sym_reach("bad"); }
}
