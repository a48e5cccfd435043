/* C19: protocol frames and event dispatch */
#include <poll.h>
#include "hx.h"
#include "vqueue.h"
/* every command and length (in a range, or one of a list) is read back, followed by exactly the payload; two frames */
void h_proto_roundtrip(void)
{
	static const unsigned big[] = { 511, 512, 4095, 65535, 65536, 70000 };
	hx_init();
	int out = env_mkfd_out(); size_t n; static uint8_t pay[70001]; unsigned cmd[2], len[2], c, l;
	unsigned hi = (unsigned)sym_arg("maxlen", 260);
	cmd[0] = (unsigned)sym_u(0, 7); cmd[1] = (unsigned)sym_u(0, 7);
	len[0] = (unsigned)sym_range(0, hi + 6); if (len[0] > hi) len[0] = big[len[0] - hi - 1];
	{ static const unsigned l2[] = { 0, 1, 32, 255, 256 }; len[1] = l2[sym_pick(5)]; }
	unsigned m = len[0] > 8 ? 8 : len[0];
	sym_bytes(pay, m); if (len[0] > 8) sym_bytes(pay + len[0] - 1, 1);
	proto_out(out, cmd[0], pay, len[0]);
	proto_out(out, cmd[1], pay, len[1]);
	const uint8_t *w = env_fd_out(out, &n);
	env_read_max = 1;
	int in = env_mkpipe_in(w, n); static uint8_t got[70001];
	for (int k = 0; k < 2; k++) {
		c = 99; l = 99;
		int r = proto_in(in, &c, &l);
		sym_assert(r == 1, "C19", "frame not recognised");
		sym_assert((c == cmd[k]) & (l == len[k]), "C19", "command or length changed");
		env_read_max = 0;
		if (l) { ssize_t i = read(in, got, l); sym_assert(i == (ssize_t)l, "C19", "payload shorter than announced"); sym_assert(sym_memeq(got, pay, l), "C19", "payload changed"); }
		env_read_max = 1;
	}
	c = l = 5;
	sym_assert(proto_in(in, &c, &l) == 0, "C19", "end of stream at a frame boundary not reported as such");
	sym_reach("roundtrip");
}
/* any header bytes, cut off anywhere */
void h_proto_header(void)
{
	hx_init();
	uint8_t h[6]; unsigned c = 77, l = 88; size_t n = sym_range(0, 5);
	sym_bytes(h, 5); env_read_max = 1;
	int in = env_mkpipe_in(h, n);
	int r = proto_in(in, &c, &l);
	unsigned k = h[0] >> 6; size_t need = k == 3 ? 5 : k == 2 ? 2 : 1;
	if (n == 0) { sym_assert(r == 0, "C19", "empty stream not end of file"); sym_reach("eof"); return; }
	if (n < need) { sym_assert(r < 0, "C19", "end of stream inside a frame header not an error"); sym_reach("cut"); return; }
	sym_assert(r == 1, "C19", "complete header refused");
	sym_assert(c == (h[0] & 7u), "C19", "wrong command");
	unsigned want = k == 0 ? 0 : k == 1 ? 32 : k == 2 ? h[1] : (unsigned)h[1] << 24 | (unsigned)h[2] << 16 | (unsigned)h[3] << 8 | h[4];
	sym_assert(l == want, "C19", "wrong length");
	sym_assert(env_pipes[0].pos == need, "C19", "header reading consumed payload or left header bytes");
	sym_reach("complete");
}
void h_proto_msg(void)
{
	hx_init();
	int out = env_mkfd_out(); size_t n; char t[4]; static char bigs[301];
	sym_bytes_range(t, 3, 1, 255); t[3] = 0;
	int k = (int)sym_pick(3); memset(bigs, 'x', 300);
	bigs[k == 0 ? 0 : k == 1 ? 252 : 300] = 0;	/* total 3, 255, 303 */
	proto_send_msg(out, "%s%s", bigs, t);
	const uint8_t *w = env_fd_out(out, &n); unsigned c, l; size_t m = strlen(bigs) + 3;
	int in = env_mkpipe_in(w, n);
	sym_assert(proto_in(in, &c, &l) == 1 && c == PROTO_MSG && l == m, "C19", "message frame wrong");
	static char got[400]; sym_assert(read(in, got, 400) == (ssize_t)m, "C19", "message length wrong");
	sym_assert(!memcmp(got, bigs, m - 3) && sym_memeq(got + m - 3, t, 3), "C19", "message text wrong");
}
/* events */
#define NEV 3
static struct hev { uintptr_t id; int fd, alive, enabled, calls; } hev[NEV];
static int steps, maxsteps;
static void some_enabled(void)
{
	int en = 0, al = 0; for (int i = 0; i < NEV; i++) { en += hev[i].alive && hev[i].enabled; al += hev[i].alive; }
	if (al && !en) for (int i = 0; i < NEV; i++) if (hev[i].alive) { hev[i].enabled = 1; proto_ctl_ev(hev[i].id, 1); }
}
static void evfunc(int fd, void *priv, int revents)
{
	struct hev *e = priv; char c;
	sym_assert(e >= hev && e < hev + NEV, "C19", "event handler called with the wrong argument");
	sym_assert(e->alive, "C19", "deleted event handler called");
	sym_assert(e->enabled, "C19", "disabled event handler called");
	sym_assert(e->fd == fd, "C19", "event handler called with another descriptor");
	sym_assert(revents != 0, "C19", "event handler called without an event");
	e->calls++;
	ssize_t r = read(fd, &c, 1);
	if (steps++ >= maxsteps || r == 0) { e->alive = 0; proto_del_ev(&e->id); sym_assert(e->id == 0, "C19", "id of a deleted event not cleared"); some_enabled(); return; }
	int act = (int)sym_pick(4); struct hev *o = &hev[act == 0 ? 0 : sym_pick(NEV)];
	if (!o->alive) return;
	switch (act) {
	case 1: o->alive = 0; proto_del_ev(&o->id); sym_reach("delete"); break;
	case 2: { int en = 0; for (int i = 0; i < NEV; i++) en += &hev[i] != o && hev[i].alive && hev[i].enabled; if (en) { o->enabled = 0; proto_ctl_ev(o->id, 0); sym_reach("disable"); } break; }
	case 3: o->enabled = 1; proto_ctl_ev(o->id, 1); break;
	}
	some_enabled();
}
void h_proto_ev(void)
{
	hx_init();
	maxsteps = (int)sym_arg("steps", 3); steps = 0;
	for (int i = 0; i < NEV; i++) {
		hev[i].fd = env_mkpipe_in("abcdefgh", i == 2 ? 1 : 8); hev[i].alive = hev[i].enabled = 1; hev[i].calls = 0;
		hev[i].id = proto_add_ev(hev[i].fd, POLLIN, evfunc, &hev[i]);
		sym_assert(hev[i].id != 0, "C19", "no id");
	}
	proto_dispatch_evs();
	for (int i = 0; i < NEV; i++) sym_assert(!hev[i].alive, "C19", "dispatch ended before the last event was deleted");
	sym_reach("done");
}
