/* C24: the server side of stow.  The children it forks are run by repeating the server's own
 * deterministic run up to the fork and returning 0 from it there; what they write is handed to
 * the server's pipes.  When a child runs, and which descriptor is ready first, is chosen freely. */
#include <poll.h>
#include "hx_arch.h"
extern char *optarg;
#define NJOB 16
#define NPOLL 200
static struct job { int inp, outp, ran, status, reaped; uint64_t holds; } J[NJOB]; static int nj;
static struct { int nfd, ran[6], nran; short rev[8]; } L[NPOLL]; static int npoll;
static int replay = -1, rpoll, rj;		/* repeating the run to become child number `replay` */
static struct env_pipe keep[NPIPE];		/* the server's pipes while a child runs */
static uint8_t S[24000]; static size_t ns;	/* what the client sends */
static int devs, prefer, hung;
static int steve_fork(void); static int steve_poll(struct pollfd *, unsigned long); static int steve_wait(int, int *); static void steve_block(int);
static void run_job(int j)
{
	int oi = optind, orst = optreset; char *oa = optarg; size_t n, save = env_read_max;
	memcpy(keep, env_pipes, sizeof keep);
	env_proc_push();
	env_set_stdin(S, ns);
	replay = j; rpoll = 0; rj = 0;
	int r = cli("stevedore");
	env_read_max = save; replay = -1;
	n = env_pipes[J[j].outp].len; uint8_t *o = malloc(n + 1); memcpy(o, env_pipes[J[j].outp].d, n);
	env_proc_pop();
	optind = oi; optreset = orst; optarg = oa;
	env_pipe_put(J[j].outp, o, n); free(o);
	J[j].ran = 1; J[j].status = r == CLI_ABORT ? 0x86 : r << 8;
	sym_assert(r != CLI_ABORT, "C24", "a child of the server aborts");
}
static int runnable(int j)
{
	if (J[j].ran || env_pipes[J[j].inp].wopen > 0) return 0;
	for (int k = 0; k < nj; k++) if (k != j && !J[k].ran && (J[k].holds >> J[j].inp & 1)) return 0;
	return 1;
}
static int steve_fork(void)
{
	int a = env_npipe - 2, b = env_npipe - 1;
	sym_need(a >= 0 && (replay >= 0 ? rj : nj) < NJOB, "env", "harness: more children than expected");
	if (replay >= 0) {
		if (rj < replay) return 5000 + rj++;
		env_pipe_put(a, keep[a].d, keep[a].len);	/* all it will ever read */
		return 0;
	}
	struct job *j = &J[nj]; memset(j, 0, sizeof *j);
	/* the first of the two has our end for writing: the other is read */
	j->inp = a; j->outp = b;
	for (int k = 0; k < env_npipe - 2; k++) if (env_pipes[k].wopen > 0) j->holds |= 1ULL << k;
	return 5000 + nj++;
}
static void steve_block(int p)
{
	if (replay >= 0) { sym_fail("C24", "a child of the server never sees the end of its input"); sym_end(); }
	for (int j = 0; j < nj; j++) if (J[j].outp == p && runnable(j)) { run_job(j); return; }
	hung = 1; sym_fail("C24", "the server waits for ever"); sym_end();
}
static int steve_wait(int pid, int *st)
{
	int j = pid - 5000;
	sym_need(j >= 0 && j < nj && (replay >= 0 || !J[j].reaped), "C24", "the server waits for something which is not its child");
	if (replay < 0) { if (!J[j].ran) { if (runnable(j)) run_job(j); else { sym_fail("C24", "the server waits for ever"); sym_end(); } } J[j].reaped = 1; }
	if (st) *st = J[j].status;
	return pid;
}
static int ready(struct pollfd *p)
{
	int k = env_fdpipe(p->fd);
	if (p->fd < 0) return 0;
	if (k < 0) return p->fd == 0 ? (env_stdin_left() ? POLLIN : POLLHUP) : 0;
	if (env_pipes[k].pos < env_pipes[k].len) return POLLIN;
	for (int j = 0; j < nj; j++) if (J[j].outp == k) return J[j].ran ? POLLHUP : 0;
	return 0;
}
static int steve_poll(struct pollfd *p, unsigned long n)
{
	int c[24], nc = 0, r = 0;
	if (replay >= 0) {
		sym_need(rpoll < npoll && L[rpoll].nfd == (int)n, "env", "harness: the repetition differs");
		for (int i = 0; i < L[rpoll].nran; i++) env_pipe_put(J[L[rpoll].ran[i]].outp, keep[J[L[rpoll].ran[i]].outp].d, keep[J[L[rpoll].ran[i]].outp].len);
		for (unsigned i = 0; i < n; i++) { p[i].revents = L[rpoll].rev[i]; r += p[i].revents != 0; }
		rpoll++; return r;
	}
	sym_need(npoll < NPOLL && n <= 8, "C24", "the server does not come to an end");
	memset(&L[npoll], 0, sizeof L[npoll]); L[npoll].nfd = (int)n;
	for (;;) {
		/* choices: a ready descriptor alone, all of them, or a child runs first */
		int nr = 0; nc = 0;
		for (unsigned i = 0; i < n; i++) if (ready(&p[i])) { c[nc++] = (int)i; nr++; }
		for (int j = 0; j < nj; j++) if (runnable(j)) c[nc++] = 100 + j;
		if (nr > 1) c[nc++] = 50;
		if (nc == 0) { hung = 1; sym_fail("C24", "the server waits for ever"); sym_end(); }
		int k = prefer == 0 ? 0 : nc - 1;
		if (nc > 1 && devs > 0) { int d = (int)sym_pick((uint64_t)nc); if (d != k) { devs--; k = d; } }
		if (c[k] >= 100) { run_job(c[k] - 100); L[npoll].ran[L[npoll].nran++] = c[k] - 100; if (L[npoll].nran > 5) sym_fail("env", "harness: too many children at once"); continue; }
		for (unsigned i = 0; i < n; i++) { p[i].revents = c[k] == 50 || c[k] == (int)i ? (short)ready(&p[i]) : 0; L[npoll].rev[i] = p[i].revents; r += p[i].revents != 0; }
		break;
	}
	npoll++;
	return r;
}
/* ---- what the client sends ---- */
static void frame(int cmd, const void *d, size_t n)
{
	uint8_t *u = S + ns; if (ns + n + 5 > sizeof S) sym_fail("env", "harness: too much sent");
	u[0] = (uint8_t)cmd; size_t h = 1;
	if (n == 32) u[0] |= 64; else if (n && n < 256) { u[0] |= 128; u[1] = (uint8_t)n; h = 2; } else if (n) { u[0] |= 192; be32enc(u + 1, (uint32_t)n); h = 5; }
	if (n) memcpy(u + h, d, n);
	ns += h + n;
}
#define NOBJ 5
static uint8_t O[NOBJ][3000]; static size_t on_[NOBJ]; static char od[NOBJ][65]; static char oid[NOBJ][90];
static struct op { int kind, obj; size_t end; } ops[12]; static int nops;	/* F filter, E empty filter, D data */
static void mkobj(int i, size_t n, int seed) { on_[i] = n; for (size_t k = 0; k < n; k++) O[i][k] = (uint8_t)(k * 5 + (k >> 8) * 3 + (size_t)seed); }
static uint8_t M[400]; static size_t mn; static int hasM;
static void scenario(int maxops)
{
	ns = 0; nops = 0;
	int n = (int)sym_range((uint64_t)sym_arg("lo", 0), (uint64_t)maxops), split = (int)sym_pick((uint64_t)sym_arg("splits", 3)), full = (int)sym_pick((uint64_t)sym_arg("fulls", 2));
	size_t dl = full ? 64 : arch_idbits / 4;
	for (int i = 0; i < n; i++) {
		int k = (int)sym_pick((uint64_t)sym_arg("kinds", 7));
		struct op *o = &ops[nops++];
		if (k < 4) { o->kind = 'F'; o->obj = k; frame(PROTO_FILTER, od[k], dl); }
		else if (k == 4) { o->kind = 'E'; frame(PROTO_FILTER, NULL, 0); }
		else {
			int ob = k == 5 ? 2 : 3, mid = split ? (int)sym_pick((uint64_t)sym_arg("mids", 4)) : 0;	/* 2 and 3 are not in the archive */
			size_t a = split == 0 ? on_[ob] : split == 1 ? 1 : 32;
			if (a > on_[ob]) a = on_[ob];
			frame(PROTO_DATA, O[ob], a);
			if (mid) { o->obj = mid == 1 ? 0 : 3; o->kind = mid == 3 ? 'E' : 'F'; if (mid == 3) frame(PROTO_FILTER, NULL, 0); else frame(PROTO_FILTER, od[o->obj], dl); o->end = ns; o = &ops[nops++]; }
			if (a < on_[ob]) frame(PROTO_DATA, O[ob] + a, on_[ob] - a);
			o->kind = 'D'; o->obj = ob;
			frame(PROTO_DATA, NULL, 0);
		}
		o->end = ns;
	}
	hasM = sym_bool();
	if (hasM) { frame(PROTO_META, od[0], 64); frame(PROTO_META, M, 50); frame(PROTO_META, M + 50, mn - 50); frame(PROTO_META, NULL, 0); }
}
static void start(void)
{
	char id[90];
	arch_mm = "\tapplication/json\n"; arch_init((uint64_t)sym_arg("max", 2700));
	mkobj(0, 90, 1); mkobj(1, 60, 50); mkobj(2, 75, 90); mkobj(3, (size_t)sym_arg("big", 40), 140); mn = 120; for (size_t i = 0; i < mn; i++) M[i] = (uint8_t)('a' + i % 26);
	for (int i = 0; i < 4; i++) { O[i][0] = (uint8_t)sym_u(0, 255); }
	for (int i = 0; i < 2; i++) { int r = store(O[i], on_[i], id); sym_need(r == 0, "C01", "store does not succeed"); strcpy(oid[i], id); }
	for (int i = 0; i < 4; i++) env_sha_hex(O[i], on_[i], od[i]);
}

/* ---- what the client makes of the answers ---- */
static uint8_t out_[6000]; static size_t no;
static int nextframe(size_t *pos, int *cmd, const uint8_t **d, size_t *n)
{
	size_t p = *pos; if (p >= no) return 0;
	int k = out_[p] >> 6; *cmd = out_[p++] & 7;
	if (k == 0) *n = 0; else if (k == 1) *n = 32;
	else if (k == 2) { if (p >= no) return -1; *n = out_[p++]; }
	else { if (p + 4 > no) return -1; *n = be32dec(out_ + p); p += 4; }
	if (p + *n > no) return -1;
	*d = out_ + p; *pos = p + *n; return 1;
}
static int maybe[12];	/* 1 present, 0 absent, 2 either (stored after the request) */
static void answers(int complete)
{
	size_t pos = 0, n; int cmd, w = 0, dn = 0, mt = 0, first = 1; const uint8_t *d; int r, have[NOBJ] = { 1, 1, 0, 0, 0 }, nF = 0, nD = 0, fq[12], dq[12];
	for (int i = 0; i < nops; i++) {
		if (ops[i].kind == 'D') { have[ops[i].obj] = 1; dq[nD++] = i; for (int k = 0; k < nF; k++) if (ops[fq[k]].kind == 'F' && ops[fq[k]].obj == ops[i].obj && maybe[fq[k]] == 0) maybe[fq[k]] = 2; }
		else { fq[nF++] = i; maybe[i] = ops[i].kind == 'F' ? have[ops[i].obj] : -1; }
	}
	while ((r = nextframe(&pos, &cmd, &d, &n)) == 1) {
		if (first) { sym_assert(cmd == PROTO_MSG, "C24", "the server does not introduce itself"); first = 0; continue; }
		if (cmd == PROTO_FILTER && n == 0) {
			while (w < nF && ops[fq[w]].kind == 'F') { sym_assert(maybe[fq[w]] != 0, "C24", "a missing object is passed over by an empty answer"); w++; }
			sym_need(w < nF, "C24", "an empty answer without an empty request"); w++;
		} else if (cmd == PROTO_FILTER && n == 4) {
			uint32_t u = be32dec(d); sym_need(u > 0 && u < 20, "C24", "wrong number of objects present");
			for (; u > 0; u--) { sym_need(w < nF && ops[fq[w]].kind == 'F', "C24", "more objects answered than were asked about"); sym_assert(maybe[fq[w]] != 0, "C24", "a missing object is counted as present"); w++; }
		} else if (cmd == PROTO_FILTER) {
			sym_assert(n == arch_idbits / 4, "C24", "an ID of the wrong length is answered");
			while (w < nF && ops[fq[w]].kind == 'F' && !(maybe[fq[w]] != 1 && sym_memeq(d, od[ops[fq[w]].obj], n))) { sym_assert(maybe[fq[w]] != 0, "C24", "a missing object is passed over"); w++; }
			sym_need(w < nF && ops[fq[w]].kind == 'F', "C24", "an ID is answered which was not asked about or is present"); w++;
		} else if (cmd == PROTO_DATA) {
			sym_need(dn < nD, "C24", "more objects acknowledged than were sent");
			int o = ops[dq[dn++]].obj; char want[100]; snprintf(want, sizeof want, HX_PREFIX "%.*s", (int)arch_idbits / 4, od[o]);
			sym_assert(n == strlen(want) && sym_memeq(d, want, n), "C24", "an object is acknowledged with the wrong ID");
		} else if (cmd == PROTO_META) { sym_assert(hasM && !mt, "C24", "metadata acknowledged which was not sent"); mt++; }
		else sym_assert(0, "C24", "unexpected frame from the server");
	}
	sym_assert(r == 0, "C24", "the server's last frame is incomplete");
	if (!complete) return;
	for (; w < nF; w++) { sym_assert(ops[fq[w]].kind == 'F', "C24", "an empty request is not answered"); sym_assert(maybe[fq[w]] != 0, "C24", "a missing object is not asked for"); }
	sym_assert(dn == nD, "C24", "an object sent is not acknowledged");
	sym_assert(mt == hasM, "C24", "metadata sent is not acknowledged");
}
#ifdef SDBG
#undef fprintf
#define DBG { size_t en; write(2, "", 0); const char *e_ = env_errtxt(&en); sym_debug(e_, en); for (int z = 0; z < 4; z++) sym_debug(od[z], on_[z]); sym_debug(env_fail_cond ? env_fail_cond : "-", env_fail_line); arch_read(12); for (int z = 0; z < nR; z++) { sym_debug(R[z].id, R[z].n); sym_debug(R[z].hdr, 0); } for (size_t q_ = 0; q_ < no; q_++) sym_debug("o", out_[q_]); }
#else
#define DBG
#endif
static int serve(void)
{
	size_t n; int r;
	nj = npoll = 0; hung = 0; replay = -1; memset(J, 0, sizeof J);
	env_fork_hook = steve_fork; env_poll_hook = steve_poll; env_wait_hook = steve_wait; env_block_hook = steve_block; env_npipe = 0; memset(env_pipes, 0, sizeof env_pipes);
	env_set_stdin(S, ns); r = cli("stevedore");
	const char *o = env_out(&n); sym_need(n <= sizeof out_, "env", "harness: too many answers"); memcpy(out_, o, n); no = n;
	/* children left behind see the end of their input now */
	for (int i = 0; i < env_npipe; i++) env_pipes[i].wopen = 0;
	for (int j = 0; j < nj; j++) if (!J[j].ran) { run_job(j); sym_reach("child left behind"); }
	env_fork_hook = NULL; env_poll_hook = NULL; env_wait_hook = NULL; env_block_hook = NULL;
	return r;
}
static int ended;
static void stored(int complete)
{
	int have[NOBJ] = { 1, 1, 0, 0, 0 }, k = 0; char id[90];
	if (complete || ended) for (int i = 0; i < nops; i++) if (ops[i].kind == 'D') have[ops[i].obj] = 1;
	arch_check("afterwards");
	for (int i = 0; i < 4; i++) if (have[i]) { snprintf(id, sizeof id, "%.*s", (int)arch_idbits / 4, od[i]); int r = get(id); sym_assert(r == 0 && ngot == on_[i] && sym_memeq(got, O[i], ngot), "C24", "an object sent is not in the archive as sent"); }
	arch_read(arch_limit);
	for (int i = 0; i < nR; i++) {
		if (!strcmp(R[i].type, "warcinfo") || R[i].segno > 1) continue;
		if (!strcmp(R[i].type, "metadata")) {
			k++; snprintf(id, sizeof id, "<" HX_PREFIX "%.*s>", (int)arch_idbits / 4, od[0]);
			sym_assert(hasM, "C24", "metadata in the archive which was not sent");
			sym_assert(!strcmp(R[i].refers, id), "C24", "the metadata refers to something else");
			sym_assert(!strcmp(R[i].ctype, STOW_META), "C24", "wrong type of metadata");
			if (complete) sym_assert(R[i].n == mn && sym_memeq(R[i].body, M, mn), "C24", "the metadata is not stored as sent");
		} else if (complete) {
			int f = 0; for (int o = 0; o < 4; o++) if (have[o] && !memcmp(R[i].id, od[o], arch_idbits / 4)) f = 1;
			sym_assert(f, "C24", "something is stored which was not sent");
		}
	}
	if (complete) sym_assert(k == hasM, "C24", "the metadata is not stored exactly once");
}
void h_steve(void)
{
	static const int rd[] = { 0, 1, 7 };
	start(); scenario((int)sym_arg("ops", 3));
	env_read_max = (size_t)rd[sym_pick((uint64_t)sym_arg("reads", 1))];
	prefer = (int)sym_pick(2); devs = (int)sym_arg("devs", 1);
	int r = serve();
	env_read_max = 0; devs = 0;
	DBG
	sym_need(r == 0, "C24", r == CLI_ABORT ? "the server aborts" : "the server fails");
	answers(1); stored(1);
	sym_reach(hasM ? "with metadata" : "without metadata");
}
/* the connection ends after any byte */
void h_steve_eof(void)
{
	start(); scenario((int)sym_arg("ops", 2));
	env_read_max = (size_t[]){ 0, 5 }[sym_pick((uint64_t)sym_arg("reads", 1))];
	prefer = (int)sym_pick(2); devs = (int)sym_arg("devs", 0);
	if (ns == 0) sym_end();
	size_t all = ns; int n = nops; ns = sym_range(0, all - 1);
	int r = serve();
	env_read_max = 0; devs = 0;
	DBG
	sym_assert(r != CLI_ABORT, "C24", "the server aborts when the client goes away");
	/* only what was sent completely counts */
	int m = hasM; nops = n;
	answers(0);
	while (nops > 0 && ops[nops - 1].end > ns) nops--;
	ended = 1; hasM = m; stored(0);
	sym_reach(r == 0 ? "exit 0" : "exit not 0");
}
