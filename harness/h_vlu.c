/* C20: line assembly independent of chunking */
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vdef.h"
#include "vas.h"
#include "vlu.h"
#include "sym.h"
#include "env.h"

static char got[256]; static unsigned gotn, nlines; static int stop_at, stop_val, called_after, stopped;
static int line(void *priv, const char *l)
{
	sym_assert(priv == &gotn, "C20", "wrong private pointer");
	if (stopped) called_after = 1;
	size_t n = strlen(l);
	memcpy(got + gotn, l, n); gotn += n; got[gotn++] = '\n';
	if ((int)nlines++ == stop_at) { stopped = 1; return stop_val; }
	return 0;
}
static char in[32], want[64];
static unsigned nin, wlast, nterm, maxrun; static unsigned lend[40];
static void oracle(void)	/* lines end at CR or NL */
{
	unsigned w = 0, run = 0;
	for (unsigned i = 0; i < nin; i++) {
		if (in[i] == '\n' || in[i] == '\r') { want[w++] = '\n'; wlast = w; lend[nterm++] = w; run = 0; }
		else { want[w++] = in[i]; if (++run > maxrun) maxrun = run; }
	}
}
static void verdict(int rv, unsigned bufsize)
{
	int fits = maxrun + 2 <= bufsize;
	if (fits) {
		if (stop_at >= 0 && (unsigned)stop_at < nterm) {
			sym_assert(rv == stop_val, "C20", "the consumer's value is not passed on");
			sym_assert(!called_after, "C20", "consumer called again after it stopped");
			sym_assert(gotn == lend[stop_at] && sym_memeq(got, want, gotn), "C20", "lines up to the stop differ");
			sym_reach("stopped");
		} else {
			sym_assert(gotn == wlast, "C20", "wrong amount of line data delivered");
			sym_assert(sym_memeq(got, want, wlast), "C20", "line content differs");
			sym_reach("all lines");
		}
	} else {
		/* a line does not fit: it ends (this is reached), and what was delivered before is right */
		unsigned k = gotn < wlast ? gotn : wlast;
		sym_assert(stopped || rv != 0 || gotn <= wlast, "C20", "over-long line accepted with wrong data");
		if (maxrun + 2 > bufsize && !stopped) {
			unsigned first = 0, run = 0, ok = 0, w = 0;
			for (unsigned i = 0; i < nin; i++) { w++; if (in[i] == '\n' || in[i] == '\r') { run = 0; ok = w; } else if (++run + 2 > bufsize) { first = ok; break; } }
			if (k < first) first = k;
			sym_assert(sym_memeq(got, want, first), "C20", "lines before the over-long one differ");
		}
		sym_reach("over-long");
	}
	sym_note(1, gotn); sym_note(2, rv);
}
static unsigned setup(void)
{
	env_install_vas();
	nin = sym_range(1, sym_arg("n", 5));
	sym_bytes_range(in, nin, 1, 255);
	oracle();
	stop_at = (int)sym_range(0, 2) - 1;
	stop_val = (int)sym_u(1, 255) - 128;
	sym_assume(stop_val != 0);
	return (unsigned)sym_range(2, sym_arg("n", 5) + 2);
}
void h_vlu_feed(void)
{
	unsigned bufsize = setup(), at = 0; int rv = 0;
	struct vlu *v = VLU_New(line, &gotn, bufsize);
	for (int i = 0; i < 3 && rv == 0; i++) {
		unsigned to = i == 2 ? nin : (unsigned)sym_range(at, nin);
		if (to > at) rv = VLU_Feed(v, in + at, (int)(to - at));
		at = to;
	}
	verdict(rv, bufsize);
	VLU_Destroy(&v);
	sym_assert(v == NULL, "C20", "VLU_Destroy leaves the pointer");
}
/* from a descriptor, short reads anywhere */
void h_vlu_fd(void)
{
	env_init();
	unsigned bufsize = setup(); int rv, n = 0;
	env_read_max = sym_range(1, nin);
	int fd = env_mkpipe_in(in, nin);
	struct vlu *v = VLU_New(line, &gotn, bufsize);
	do { rv = VLU_Fd(v, fd); sym_assert(++n < 40, "C20", "no progress"); } while (rv == 0);
	if (maxrun + 2 <= bufsize && !(stop_at >= 0 && (unsigned)stop_at < nterm))
		sym_assert(rv == -2, "C20", "end of file not reported as such");
	if (maxrun >= bufsize && !stopped) sym_assert(rv == -1, "C20", "line that does not fit is reported as end of file");
	verdict(rv == -2 && maxrun + 2 <= bufsize && !stopped ? 0 : rv, bufsize);
	VLU_Destroy(&v);
	if (sym_bool()) {	/* the one-call version */
		gotn = nlines = 0; stopped = called_after = 0;
		int fd2 = env_mkpipe_in(in, nin);
		int r2 = VLU_File(fd2, line, &gotn, bufsize);
		sym_assert(r2 == rv, "C20", "VLU_File and VLU_Fd disagree");
		if (maxrun + 2 <= bufsize) verdict(r2 == -2 && !stopped ? 0 : r2, bufsize);
	}
	sym_assert(VLU_Fd(VLU_New(line, &gotn, 0), 40) == -1, "C20", "read error not reported");
}
/* reset forgets pending data */
void h_vlu_reset(void)
{
	env_install_vas();
	char a[4], b[4]; unsigned n = sym_range(1, 3), m = sym_range(1, 3);
	sym_bytes_range(a, n, 32, 255); sym_bytes_range(b, m, 32, 255);
	stop_at = -1;
	struct vlu *v = VLU_New(line, &gotn, 16);
	sym_assert(VLU_Feed(v, a, n) == 0 && gotn == 0, "C20", "unterminated data delivered");
	VLU_Reset(v);
	VLU_Feed(v, b, m); VLU_Feed(v, "\n", 1);
	sym_assert(gotn == m + 1 && sym_memeq(got, b, m), "C20", "data from before the reset delivered");
	VLU_Destroy(&v);
}
