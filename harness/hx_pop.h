/* archives to look at: a few objects of several kinds, stored through the command line */
#ifndef HX_POP_H
#define HX_POP_H
#include "hx_arch.h"
struct pobj { uint8_t *b; size_t n; char id[90]; int meta, seg; };
static struct pobj P_[8]; static int nP;
static void pop_fill(uint8_t *b, size_t n, int kind, int seed, int sym)
{
	for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(kind == 2 ? 'x' + i % 5 : kind ? 'x' : (i * 7 + (i >> 8) + (size_t)seed));
	if (sym) { b[0] = (uint8_t)sym_u(0, 255); b[n - 1] = (uint8_t)sym_u(0, 255); }
}
/* kind: 0 small, 1 segmented, 2 identical segments, 3 metadata of the first, 4 segmented metadata of the first, 5 three segments, 6 compressible */
static void pop_add(int kind, int seed, int sym)
{
	static const size_t len[] = { 100, 2500, 4900, 60, 2500, 4200, 900 };
	struct pobj *o = &P_[nP]; int r;
	o->n = len[kind]; o->b = malloc(o->n); o->meta = kind == 3 || kind == 4; pop_fill(o->b, o->n, kind == 2 ? 2 : kind == 6, seed, sym && kind != 2 && kind != 6);
	if (kind == 6) o->b[0] = (uint8_t)seed;
	r = o->meta ? store_meta(o->b, o->n, P_[0].id, o->id) : store(o->b, o->n, o->id);
	sym_need(r == 0, "C01", "store does not succeed");
	for (int i = 0; i < nP; i++) if (!strcmp(P_[i].id, o->id)) { free(o->b); return; }
	nP++;
}
static void pop_share(int digits)
{
	static const char *p = "c0ffee00badc0de5feedf00d5ca1ab1e"; char t[40];
	memcpy(t, p, (size_t)digits); t[digits] = 0;
	if (digits) for (int i = 0; i < 64; i++) env_sha_set_prefix(i, t);
}
/* one of a number of lists of kinds */
#define NPOP 7
static void pop_list(int which, int sym)
{
	static const char *l[NPOP] = { "0", "01", "0013", "5", "002", "1525", "034" };
	int k = 0; for (const char *p = l[which]; *p; p++) pop_add(*p - '0', 3 + 40 * k++, sym);
}
static void rm_index(void) { env_remove("/s/index.appendix"); env_remove("/s/index.housekeep"); env_remove("/s/index.sorted"); }
static void all_there(const char *prop, const char *msg)
{
	for (int i = 0; i < nP; i++) {
		int r = get(P_[i].id);
		sym_assert(r == 0 && ngot == P_[i].n && sym_memeq(got, P_[i].b, P_[i].n), prop, msg);
	}
}
#endif
