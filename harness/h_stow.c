/* C24: the client side of stow.  The server and mtree are played by the harness: any conforming
 * batching of the answers, any order of progress, any cuts of the listing. */
#include <poll.h>
#include "hx_arch.h"
#define MAXF 6
static struct file { char name[24], path[40]; uint8_t d[400]; size_t n; char dig[65]; int changed, present, listed, empty, sent; char now[65]; } F[MAXF]; static int nF;
static char T[3000]; static size_t nT, tpos; static char Tdig[65];
static int tpresent;
/* the server */
static size_t ppos; static int nq, qdone; static struct { int obj; int empty; } Q[24];	/* requests; obj MAXF is the listing */
static uint8_t cur[4000]; static size_t ncur; static int incur, ack, blocked, gone, refused;
static char have[24][65]; static int nhave;
static char ackid[65]; static int nput; static struct { char dig[65]; size_t n; } put[16];
static uint8_t meta[2000]; static size_t nmeta; static int inmeta, metas, metadone, metaack; static char metaref[80];
static int base, dies, died; static const char *root, *jobname;	/* the first pipe of the job, the server may go away, the directory */
static int devs, prefer, nspl, npolls, idsize, longid; static size_t lastlen;
static int is(const char *a, const char *b, size_t n) { return !memcmp(a, b, n); }
static int present(const char *dig) { for (int i = 0; i < nhave; i++) if (is(have[i], dig, (size_t)idsize)) return 1; return 0; }
static void answer(int cmd, const void *d, size_t n)
{
	uint8_t u[5] = { (uint8_t)cmd }; size_t h = 1;
	if (n == 32) u[0] |= 64; else if (n && n < 256) { u[0] |= 128; u[1] = (uint8_t)n; h = 2; } else if (n) { u[0] |= 192; be32enc(u + 1, (uint32_t)n); h = 5; }
	env_pipe_put(base + 1, u, h); if (n) env_pipe_put(base + 1, d, n);
}
static int want;	/* requests seen so far, in the order of the listing */
static void request(const uint8_t *d, size_t n)
{
	sym_need(nq < 24, "C24", "more requests than there are files");
	sym_assert(!incur || nput >= 0, "C24", "?");
	if (n == 0) {
		sym_assert(want == nF + 1, "C24", "the request which ends the list comes before the listing was asked for");
		want++; Q[nq].empty = 1; nq++; return;
	}
	while (want < nF && F[want].empty) want++;
	sym_need(want <= nF, "C24", "a request too many");
	const char *e = want == nF ? Tdig : F[want].dig;
	sym_assert(n == 64 || n == (size_t)idsize, "C24", "a request of the wrong length");
	sym_assert(sym_memeq(d, e, n), "C24", "a request which is not for the next file of the listing");
	Q[nq].obj = want; Q[nq].empty = 0; nq++; want++;
}
static void frame(unsigned cmd, const uint8_t *d, size_t n)
{
	if (cmd == PROTO_FILTER) { request(d, n); return; }
	if (cmd == PROTO_DATA) {
		sym_need(!inmeta, "C24", "data in the middle of metadata");
		if (n) { incur = 1; sym_need(ncur + n <= sizeof cur, "C24", "more data sent than there is"); memcpy(cur + ncur, d, n); ncur += n; return; }
		sym_need(incur, "C24", "the end of an object which has no data");
		sym_need(nput < 16, "C24", "more objects sent than there are"); env_sha_hex(cur, ncur, put[nput].dig); put[nput].n = ncur;
		snprintf(have[nhave++], 65, "%s", put[nput].dig); strcpy(ackid, put[nput].dig); nput++;
		incur = 0; ncur = 0; blocked = 1; return;
	}
	sym_need(cmd == PROTO_META, "C24", "unexpected frame from the client");
	sym_need(!incur, "C24", "metadata in the middle of an object");
	if (!inmeta) { sym_need(n > 0 && n < sizeof metaref, "C24", "metadata without a reference"); memcpy(metaref, d, n); metaref[n] = 0; inmeta = 1; nmeta = 0; metas++; while (want < nF && F[want].empty) want++; sym_assert(want > nF && (qdone == nq || Q[qdone].empty) && !blocked, "C24", "metadata sent before everything else is done"); return; }
	if (n) { sym_need(nmeta + n < sizeof meta, "C24", "more metadata than expected"); memcpy(meta + nmeta, d, n); nmeta += n; meta[nmeta] = 0; return; }
	inmeta = 0; metaack = 1;
}
static int lag;
static void parse(int one)
{
	struct env_pipe *p = &env_pipes[base];
	while (!blocked && !gone && (!lag || one-- > 0 || p->len == ppos)) {
		size_t l = p->len - ppos, h = 1, n = 0; const uint8_t *d = p->d + ppos;
		if (l == 0) { if (p->wopen == 0 && !metaack && !(qdone < nq)) gone = 1; return; }
		int k = d[0] >> 6; if (k == 2) { h = 2; if (l >= 2) n = d[1]; } else if (k == 3) { h = 5; if (l >= 5) n = be32dec(d + 1); } else if (k == 1) n = 32;
		if (l < h || l < h + n) { sym_assert(p->wopen > 0, "C24", "the client's last frame is incomplete"); return; }
		ppos += h + n;
		frame(d[0] & 7, d + h, n);
	}
}
static const char *qdig(int i) { return Q[i].obj == nF ? Tdig : F[Q[i].obj].dig; }
/* answer the next n requests, as one run of the filter does */
static void batch(int n)
{
	int k = 0;
	if (Q[qdone].empty) { answer(PROTO_FILTER, NULL, 0); qdone++; return; }
	for (; n > 0; n--, qdone++) { if (present(qdig(qdone))) { k++; continue; } answer(PROTO_FILTER, qdig(qdone), (size_t)idsize); k = 0; lastlen = 1; if (Q[qdone].obj < nF) F[Q[qdone].obj].sent++; else tpresent = 0; }
	if (lastlen == 0 && k) { uint8_t u[4]; be32enc(u, (uint32_t)k); answer(PROTO_FILTER, u, 4); }
	lastlen = 0;
}
static int ready(struct pollfd *p)
{
	int k = env_fdpipe(p->fd) - base;
	if (p->fd < 0 || k < 0) return 0;
	if (died && k == 0) return POLLERR;
	/* a lagging server: no room for more before it has read everything (but always for what one call writes) */
	if (k == 0) return !lag || ppos == env_pipes[base].len ? p->events & POLLOUT : 0;
	if (env_pipes[base + k].pos < env_pipes[base + k].len) return POLLIN;
	if ((k == 1 || k == 2) && gone) return POLLHUP;
	if (k == 3 && tpos == nT) return POLLHUP;
	return 0;
}
static int dieat;
static int stow_poll(struct pollfd *p, unsigned long n)
{
	int r = 0;
	sym_need(npolls++ < 4000, "C24", "the client does not come to an end");
	for (;;) {
		int c[24], nc = 0, nr = 0, lim = qdone;
		parse(0);
		/* the client reads and writes, or one of the others makes progress */
		for (unsigned i = 0; i < n; i++) if (ready(&p[i])) { c[nc++] = (int)i; nr++; }
		while (lim < nq && !Q[lim].empty) lim++;
		if (!gone && qdone < nq) { if (lim - qdone > 1) c[nc++] = 101; c[nc++] = 100; }
		if (!gone && blocked) c[nc++] = 110;
		if (!gone && metaack && qdone == nq) c[nc++] = 120;
		if (!gone && lag && !blocked && ppos < env_pipes[base].len) c[nc++] = 140;
		if (tpos < nT) c[nc++] = 130;
		if (nr > 1) c[nc++] = 50;
		if (!gone && dies) { if (npolls >= dieat) { gone = died = 1; dies = 0; env_pipes[base].broken = 1; continue; } }
		if (nc == 0) { size_t en; sym_debug(env_out(&en), 0); sym_debug("nq", nq); sym_debug("qdone", qdone); sym_debug("want", want); sym_debug("blocked", blocked); sym_debug("n", n); for (unsigned i = 0; i < n; i++) sym_debug("fd", env_fdpipe(p[i].fd)); sym_debug(T, nT); sym_fail("C24", "the client waits for ever"); sym_end(); }
		int k = prefer == 0 ? 0 : prefer == 1 ? nc - 1 : nc / 2;
		if (nc > 1 && devs > 0) { int d = (int)sym_pick((uint64_t)nc); if (d != k) { devs--; k = d; } }
		if (c[k] == 100) { batch(lim - qdone); continue; }
		if (c[k] == 101) { batch(1); continue; }
		if (c[k] == 110) { char u[100]; int m = snprintf(u, sizeof u, HX_PREFIX "%.*s", idsize, ackid); answer(PROTO_DATA, u, (size_t)m); blocked = 0; ack++; continue; }
		if (c[k] == 120) { const char *u = HX_PREFIX "0123456789abcdef0123456789abcdef"; answer(PROTO_META, u, strlen(u)); metaack = 0; metadone++; continue; }
		if (c[k] == 140) { parse(1); continue; }
		if (c[k] == 130) { size_t m = nT - tpos; if (nspl > 0) { nspl--; m = sym_range(1, m); } env_pipe_put(base + 3, T + tpos, m); tpos += m; continue; }
		for (unsigned i = 0; i < n; i++) { p[i].revents = c[k] == 50 || c[k] == (int)i || env_fdpipe(p[i].fd) == base ? (short)ready(&p[i]) : 0; r += p[i].revents != 0; }
		return r;
	}
}
static int nfork, exitst, njobs; static void done(void); static void scenario(void); static void job_begin(int);
static void (*childcheck)(int);
static int child;	/* the run is continued in this child */
static int stow_fork(void)
{
	int j = nfork / 2; nfork++;
	if (child == nfork) return 0;
	if (nfork & 1) {
		sym_need(j < njobs, "C24", "more servers than jobs");
		if (j) { done(); job_begin(j); }
		sym_need(env_npipe == base + 3, "C24", "three pipes to the server expected"); env_pipes[base].ropen--;
		if (!child) answer(PROTO_MSG, "Hi there", 8);
	} else sym_need(env_npipe == base + 4, "C24", "one pipe from mtree expected");
	return 5000 + nfork;
}
static int stow_wait(int pid, int *st)
{
	int j = base / 4;
	if (pid == 5002 + 2 * j) sym_assert(tpos == nT, "C24", "waits for mtree before the end of the listing");
	else { sym_need(pid == 5001 + 2 * j, "C24", "the client waits for something which is not its child"); if (!gone) { if (lag) lag = 0; parse(0); } sym_need(gone, "C24", "the client waits for the server for ever"); }
	if (st) *st = pid == 5001 + 2 * j ? exitst : 0;
	return pid;
}
static void stow_block(int k) { if (k == base + 1 || k == base + 3) { sym_fail("C24", "the client waits for ever"); sym_end(); } }
static void tcat(const char *s) { size_t l = strlen(s); if (nT + l > sizeof T) sym_fail("env", "harness: listing too long"); memcpy(T + nT, s, l); nT += l; }
static void hexof(const uint8_t *p, size_t n, char *o) { env_sha_hex(p, n, o); }
/* the listing, as mtree prints it */
static int settype;	/* directories are the default: files say what they are */
static void add(const char *dir, const char *name, const char *vis, size_t n, int seed, int layout)
{
	struct file *f = &F[nF++]; memset(f, 0, sizeof *f);
	snprintf(f->name, sizeof f->name, "%s", name); snprintf(f->path, sizeof f->path, "%s/%s%s", root, dir, name); f->n = n;
	for (size_t i = 0; i < n; i++) f->d[i] = (uint8_t)(i * 3 + (size_t)seed);
	if (n) f->d[0] = (uint8_t)sym_u(0, 255);
	if (n) hexof(f->d, n, f->dig); else strcpy(f->dig, "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
	f->empty = n == 0;
	tcat("    "); tcat(vis); tcat(layout ? "   \\\n                " : " mode=0644 "); tcat("size=1 time=1.0"); tcat(layout == 2 ? " \\\n    " : " "); tcat("sha256digest="); tcat(f->dig); tcat(layout == 2 ? " type=file\n" : settype ? " type=file\n" : "\n");
}
static void scenario(void)
{
	int lay = (int)sym_pick((uint64_t)sym_arg("layouts", 3)), tree = (int)sym_pick((uint64_t)sym_arg("trees", 5)), same = 0;
	nF = 0; nT = tpos = 0; settype = 0;
	char dn[40]; snprintf(dn, sizeof dn, "%s/sub/deep", root); env_mkdirp(dn); snprintf(dn, sizeof dn, "%s/two", root); env_mkdirp(dn);
	tcat("/set type=file uid=0 gid=0 mode=0644 nlink=1 flags=none\n");
	tcat(lay == 1 ? ".               type=dir mode=0755 \\\n                nlink=2\n" : ".  type=dir mode=0755\n");
	switch (tree) {
	case 0: break;
	case 1: add("", "a", "a", 60, 1, lay); break;
	case 2: add("", "a", "a", 60, 1, lay); add("", "b c", "b\\040c", 61, 2, lay); add("", "zero", "zero", 0, 2, lay); break;
	case 3: add("", "a", "a", 60, 1, lay); tcat("    l           type=link link=a\n\nsub  type=dir mode=0755\n"); add("sub/", "b", "b", 300, 9, lay); tcat("\ndeep type=dir mode=0755\n..\n\n..\n\ntwo             type=dir mode=0755\n"); add("two/", "c", "c", 62, 77, lay); tcat("..\n\n"); break;
	case 5: nT = 0; settype = 1; tcat(lay ? "/set mode=0755 type=dir uid=0\n.\n" : "/set type=dir mode=0755\n.               nlink=4\n"); add("", "a", "a", 60, 1, lay); tcat("sub  nlink=2\n");
		settype = 0; tcat("/set uid=3 type=file mode=0644\n"); add("sub/", "b", "b", 61, 9, lay); tcat("/set gid=7\n"); add("sub/", "d", "d", 30, 5, lay); tcat("..\n/set type=dir\ntwo mode=0700\n"); settype = 1; add("two/", "c", "c", 62, 77, lay); tcat("..\n"); settype = 0; break;
	case 4: add("", "a", "a", 60, 1, lay); F[0].d[0] = 7; hexof(F[0].d, 60, F[0].dig); nT = 0; same = 1; nF = 0;
		tcat("/set type=file\n.  type=dir\n"); add("", "a", "a", 60, 1, lay); add("", "copy", "copy", 60, 1, lay); F[1].d[0] = F[0].d[0]; break;
	}
	if (same) { /* two files with the same content */
		hexof(F[1].d, F[1].n, F[1].dig); nT = 0; tcat("/set type=file\n.  type=dir\n");
		for (int i = 0; i < 2; i++) { tcat("    "); tcat(F[i].name); tcat(" sha256digest="); tcat(F[i].dig); tcat("\n"); }
	}
	tcat("..\n\n");
	for (int i = 0; i < nF; i++) {
		int k = F[i].empty || (tree == 5 && i > 1) ? 0 : (int)sym_pick((uint64_t)sym_arg("states", 3)); if (same && i == 1 && k == 1) k = 0;
		if (k == 1) { F[i].present = 1; snprintf(have[nhave++], 65, "%s", F[i].dig); }
		if (k == 2) { F[i].changed = 1; F[i].d[1] ^= 0x55; if (sym_bool()) F[i].n += 11; hexof(F[i].d, F[i].n, F[i].now); } else strcpy(F[i].now, F[i].dig);
		env_mkfile(F[i].path, F[i].d, F[i].n);
	}
	hexof((uint8_t *)T, nT, Tdig);
	tpresent = 1; if (sym_bool()) snprintf(have[nhave++], 65, "%s", Tdig);
}
static void job_begin(int j)
{
	base = 4 * j; root = j ? "/e" : "/d"; jobname = j ? "k" : "j";
	ppos = 0; nq = qdone = 0; incur = ack = blocked = gone = refused = inmeta = metas = metadone = metaack = 0; ncur = nmeta = 0; nput = 0; want = 0; npolls = 0; lastlen = 0;
	scenario();
}
static void begin(void)
{
	idsize = longid ? 64 : 32; arch_idbits = (unsigned)idsize * 4;
	arch_extra = "stow.j:\n\tdirectory /d\n\tcmd x\nstow.k:\n\tdirectory /e\n\tcmd x y z\n\tremote some.where\n\texclude /no\n"; arch_init(1000000);
	env_mkdirp("/d"); env_mkdirp("/e"); nhave = 0; nfork = 0; exitst = 0; died = dies = 0; njobs = 1; child = 0;
	env_npipe = 0; memset(env_pipes, 0, sizeof env_pipes);
	env_fork_hook = stow_fork; env_poll_hook = stow_poll; env_wait_hook = stow_wait; env_block_hook = stow_block;
	job_begin(0);
}
static void end_hooks(void) { env_fork_hook = NULL; env_poll_hook = NULL; env_wait_hook = NULL; env_block_hook = NULL; env_exec_hook = NULL; env_read_max = 0; }
static void done(void)
{
	int k = 0; char w[200];
	sym_assert(want == nF + 2, "C24", "not everything of the listing was asked about");
	sym_assert(metas == 1 && metadone == 1 && !inmeta, "C24", "the metadata is not sent exactly once");
	sym_assert(!strcmp(metaref, Tdig), "C24", "the metadata refers to something else");
	for (int i = 0; i < nF; i++) for (int j = 0; j < F[i].sent; j++) {
		sym_need(k < nput, "C24", "a missing file is not sent");
		sym_assert(put[k].n == F[i].n && !strcmp(put[k].dig, F[i].now), "C24", "a file is not sent as it is, or out of order"); k++;
	}
	if (!tpresent) { sym_need(k < nput, "C24", "the listing is not sent"); sym_assert(put[k].n == nT && !strcmp(put[k].dig, Tdig), "C24", "the listing is not sent as it is"); k++; }
	sym_assert(k == nput, "C24", "something is sent which was not asked for");
	for (int i = 0; i < nF; i++) {
		sym_assert(F[i].sent <= 1, "C24", "?");
		snprintf(w, sizeof w, "\"sha256:%s\": \"id:%.*s\"", F[i].dig, idsize, F[i].now);
		int in = strstr((char *)meta, w) != NULL;
		sym_assert(in == (F[i].sent && F[i].changed), "C24", F[i].changed ? "a changed file is not in the metadata" : "an unchanged file is in the metadata as changed");
	}
	snprintf(w, sizeof w, "\"mtree\": \"sha256:%s\"", Tdig); sym_assert(strstr((char *)meta, w) != NULL, "C24", "the metadata does not name the listing");
	sym_assert((snprintf(w, sizeof w, "\"target\": \"%s\"", jobname), strstr((char *)meta, w) != NULL), "C24", "the metadata does not name the job");
	/* an object (JSON text): braces and quotes balance, nothing follows */
	int depth = 0, q = 0; size_t i; for (i = 0; i < nmeta; i++) { char c = (char)meta[i]; if (c == '"') q = !q; if (q) continue; if (c == '{' || c == '[') depth++; if (c == '}' || c == ']') { depth--; if (depth == 0) break; } if (c == ',') { size_t j = i + 1; while (j < nmeta && (hx_isspace(meta[j]) || meta[j] == 0)) j++; sym_assert(meta[j] != '}' && meta[j] != ',', "C24", "the metadata is not well-formed"); } }
	sym_assert(depth == 0 && q == 0 && i + 2 >= nmeta, "C24", "the metadata is not well-formed");
}
static void setup(void)
{
	static const int rd[] = { 0, 1, 7 };
	longid = (int)sym_pick((uint64_t)sym_arg("ids", 2)); begin();
	env_read_max = (size_t)rd[sym_pick((uint64_t)sym_arg("reads", 1))];
	prefer = (int)sym_pick((uint64_t)sym_arg("prefers", 3)); lag = (int)sym_pick((uint64_t)sym_arg("lags", 2)); devs = (int)sym_arg("devs", 1); nspl = (int)sym_arg("splits", 1);
}
void h_stow(void)
{
	setup();
	int r = cli("stow", "j");
	end_hooks();
#ifdef SDBG
	{ size_t en; sym_debug(env_errtxt(&en), 0); sym_debug(env_out(&en), 0); sym_debug(env_fail_func ? env_fail_func : "-", (uint64_t)env_fail_line); if (r) sym_debug(T, nT); }
#endif
	sym_need(r == 0, "C24", r == CLI_ABORT ? "the client aborts" : "the client fails");
	done();
	sym_reach("done");
}
/* two targets in one run: each has its own server and listing */
void h_stow_two(void)
{
	setup(); njobs = 2;
	int r = cli("stow", "j", "k");
	end_hooks();
	sym_need(r == 0, "C24", r == CLI_ABORT ? "the client aborts" : "the client fails");
	sym_need(nfork == 4, "C24", "a target is passed over");
	done();
	sym_reach("done");
}
/* the server goes away at any point, or fails: no success, unless the metadata were acknowledged and the server succeeded */
void h_stow_dead(void)
{
	setup(); dies = 1; dieat = (int)sym_range(1, (uint64_t)sym_arg("polls", 40)); exitst = sym_bool() ? 256 : 0;
	int r = cli("stow", "j");
	end_hooks();
	if (died) {
		sym_reach("dies");
		sym_assert(r != 0 || (metadone && exitst == 0), "C24", "success although the server went away before everything was stored");
	} else {
		sym_reach("lives");
		sym_assert((r == 0) == (exitst == 0), "C24", exitst ? "success although the server failed" : "the client fails");
	}
	if (r == 0) done();
}
/* what the children become */
static const char *xwhat;
static void xexec(const char **v)
{
	size_t n = 0; while (v[n]) n++;
	const char *server[] = { "/bin/sh", "/bin/sh", "-ec", "x", NULL }, *remote[] = { "ssh", "ssh", "some.where", "x y z", NULL };
	const char *mt[] = { "mtree", "mtree", "-n", "-c", "-Ksha256digest", "-j", "-p", "/d", NULL }, *mtx[] = { "mtree", "mtree", "-n", "-c", "-Ksha256digest", "-j", "-p", "/e", "-X", "/no", NULL };
	const char **w = nfork == 1 ? (base || xwhat[0] == 'k' ? remote : server) : xwhat[0] == 'k' ? mtx : mt;
	for (size_t i = 0; ; i++) { sym_need((w[i] == NULL) == (v[i] == NULL), "C24", "a child gets the wrong number of arguments"); if (!w[i]) break; sym_assert(!strcmp(w[i], v[i]), "C24", "a child gets a wrong argument"); }
	if (nfork == 1) sym_assert(env_fdpipe(0) == 0 && env_fdpipe(1) == 1 && env_fdpipe(2) == 2, "C24", "the server's streams are not connected to the client");
	else sym_assert(env_fdpipe(1) == 3 && env_fdpipe(0) < 0, "C24", "mtree's output is not connected to the client");
	for (int i = 3; i < 40; i++) sym_assert(env_fdpipe(i) < 0, "C24", "a child has the client's pipes open");
	for (int i = 0; i < env_npipe; i++) if (i != 0) sym_assert(env_pipes[i].ropen <= 1, "C24", "?");
	sym_reach("exec");
	sym_end();
}
void h_stow_child(void)
{
	longid = 0; begin(); child = 1 + (int)sym_pick(2); xwhat = sym_bool() ? "k" : "j"; env_exec_hook = xexec;
	cli("stow", (char *)(uintptr_t)xwhat);
	sym_fail("C24", "a child is not started");
}
