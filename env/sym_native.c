/* Native implementation of sym.h: values come from the file named by $SYM_IN. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include "sym.h"
static uint64_t *vals; static size_t nvals, pos;
static FILE *out;
static void load(void) {
	static int done; if (done) return; done = 1;
	const char *fn = getenv("SYM_IN"), *ofn = getenv("SYM_OUT");
	out = ofn ? fopen(ofn, "w") : stderr;
	if (out == NULL) out = stderr;
	if (!fn) return;
	FILE *f = fopen(fn, "r"); unsigned long long v;
	if (!f) { fprintf(stderr, "no input file %s\n", fn); _exit(79); }
	while (fscanf(f, "%llu", &v) == 1) { vals = realloc(vals, sizeof *vals * (nvals + 1)); vals[nvals++] = v; }
	fclose(f);
}
static uint64_t next(uint64_t lo, uint64_t hi) {
	load();
	uint64_t v = pos < nvals ? vals[pos] : lo; pos++;
	if (v < lo || v > hi) { fprintf(out, "DIVERGED range\n"); fflush(out); _exit(78); }
	return v;
}
uint64_t sym_u_(unsigned w, uint64_t lo, uint64_t hi) { (void)w; return next(lo, hi); }
void sym_make_(void *p, size_t n, unsigned lo, unsigned hi) { unsigned char *q = p; for (size_t i = 0; i < n; i++) q[i] = (unsigned char)next(lo, hi); }
void sym_assume(int c) { load(); if (!c) { fprintf(out, "DIVERGED assume\n"); fflush(out); _exit(78); } }
static int mine(const char *prop) { /* is the assertion about the property being checked? */
	const char *me = getenv("SYM_PROP");
	for (const char *p = prop; me && *p; ) {
		while (*p == ' ' || *p == ',') p++;
		size_t n = strcspn(p, ", ");
		if ((n == 1 && *p == '*') || (n == 3 && !memcmp(p, "env", 3)) || (n == strlen(me) && !memcmp(p, me, n))) return 1;
		p += n;
	}
	return me == NULL;
}
void sym_assert_(int c, const char *prop, const char *msg) { load(); if (!c && mine(prop)) { fprintf(out, "ASSERT-FAIL %s|%s\n", prop, msg); fflush(out); _exit(77); } }
void sym_fail(const char *prop, const char *msg) { sym_assert_(0, prop, msg); }
void sym_reach(const char *l) { load(); fprintf(out, "REACH %s\n", l); fflush(out); }
void sym_note(int t, uint64_t v) { load(); fprintf(out, "NOTE %d %llu\n", t, (unsigned long long)v); fflush(out); }
static jmp_buf *cur; static int code;
int sym_catch(void (*fn)(void *), void *arg) {
	jmp_buf jb, *old = cur; cur = &jb; code = 0;
	if (setjmp(jb)) { cur = old; return code; }
	fn(arg);
	cur = old;
	return 0;
}
void sym_throw(int c) { load(); code = c; if (!cur) { extern const char *env_fail_func, *env_fail_cond; extern int env_fail_line;
		fprintf(out, "PANIC %d %s:%d %s\n", c, env_fail_func ? env_fail_func : "?", env_fail_line, env_fail_cond ? env_fail_cond : ""); fflush(out); _exit(76); } longjmp(*cur, 1); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_end(void) { load(); fflush(out); _exit(0); }
int sym_is_native(void) { return 1; }
long sym_arg(const char *name, long d) { char b[100]; snprintf(b, sizeof b, "SYM_ARG_%s", name); const char *p = getenv(b); return p ? atol(p) : d; }
void sym_debug(const char *m, uint64_t v) { if (getenv("SYM_DEBUG")) fprintf(stderr, "DEBUG %s %lld\n", m, (long long)v); }
int sym_issym(uint64_t v) { (void)v; return 0; }
int sym_memeq(const void *a, const void *b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
long sym_live(void) { return 0; }
extern char __start_prog_data[] __attribute__((weak)), __stop_prog_data[] __attribute__((weak)), __start_prog_bss[] __attribute__((weak)), __stop_prog_bss[] __attribute__((weak));
static char *vars[4]; static int nvars;
__attribute__((no_sanitize_address)) static void cp(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i]; }
__attribute__((no_sanitize_address)) void sym_process(int op) {
	size_t dn = (size_t)(__stop_prog_data - __start_prog_data), bn = (size_t)(__stop_prog_bss - __start_prog_bss);
	if (op == 2) { nvars--; cp(__start_prog_data, vars[nvars], dn); cp(__start_prog_bss, vars[nvars] + dn, bn); free(vars[nvars]); return; }
	if (op == 3) { char *b = malloc(dn + bn + 1); cp(b, __start_prog_data, dn); cp(b + dn, __start_prog_bss, bn); cp(__start_prog_data, vars[nvars - 1], dn); cp(__start_prog_bss, vars[nvars - 1] + dn, bn); free(vars[nvars - 1]); vars[nvars - 1] = b; return; }
	if (op < 0 || op == 1) { char *b = vars[nvars++] = malloc(dn + bn + 1); cp(b, __start_prog_data, dn); cp(b + dn, __start_prog_bss, bn); if (op < 0) return; }
	cp(__start_prog_data, vars[0], dn); cp(__start_prog_bss, vars[0] + dn, bn);
}
/* a second thread of control */
#include <ucontext.h>
#if defined(__SANITIZE_ADDRESS__)
void __sanitizer_start_switch_fiber(void **, const void *, size_t); void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
#define SW_START(s, b, n) __sanitizer_start_switch_fiber(s, b, n)
#define SW_FIN(s) __sanitizer_finish_switch_fiber(s, &co_mb, &co_mn)
#else
#define SW_START(s, b, n) (void)0
#define SW_FIN(s) (void)0
#endif
static ucontext_t co_main, co_ctx; static char *co_stk; static const size_t co_n = 64 << 20; static void (*co_fn)(void *), *co_f0, *co_f1; static void *co_arg; static int co_done; static jmp_buf *co_cur;
static const void *co_mb; static size_t co_mn;
static void co_body(void) {
	SW_FIN(NULL);
	{ const void *b = co_mb; size_t n = co_mn; (void)b; (void)n; }
	co_fn(co_arg); co_done = 1;
	SW_START(NULL, co_mb, co_mn); swapcontext(&co_ctx, &co_main);
}
static int co_go(void) {
	const void *b; size_t n; (void)b; (void)n; jmp_buf *c = cur; cur = co_cur;
	SW_START((void **)&co_f0, co_stk, co_n); swapcontext(&co_main, &co_ctx);
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_finish_switch_fiber((void *)co_f0, &b, &n);
#endif
	co_cur = cur; cur = c; return co_done;
}
int sym_co_start(void (*fn)(void *), void *arg) { co_fn = fn; co_arg = arg; co_done = 0; co_cur = NULL; if (!co_stk) co_stk = malloc(co_n); getcontext(&co_ctx); co_ctx.uc_stack.ss_sp = co_stk; co_ctx.uc_stack.ss_size = co_n; co_ctx.uc_link = NULL; makecontext(&co_ctx, co_body, 0); return co_go(); }
int sym_co_resume(void) { return co_go(); }
void sym_co_yield(void) { SW_START((void **)&co_f1, co_mb, co_mn); swapcontext(&co_ctx, &co_main); SW_FIN((void *)co_f1); }
int main(int argc, char **argv) {
	load();
	sym_process(-1);
	extern void sym_dispatch(const char *);
	sym_dispatch(argc > 1 ? argv[1] : "");
	fprintf(out, "END\n"); fflush(out);
	_exit(0);
}
