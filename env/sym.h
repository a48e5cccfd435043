/* Harness interface: implemented by the symbolic executor, and natively (sym_native.c) for replay. */
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#include <stddef.h>
uint64_t sym_u_(unsigned w, uint64_t lo, uint64_t hi);
void sym_make_(void *p, size_t n, unsigned lo, unsigned hi);
void sym_assume(int c);
void sym_assert_(int c, const char *prop, const char *msg);
void sym_fail(const char *prop, const char *msg);
void sym_reach(const char *label);
void sym_note(int tag, uint64_t v);
int sym_catch(void (*fn)(void *), void *arg);	/* 0, or the code thrown */
void sym_throw(int code) __attribute__((noreturn));
uint64_t sym_concretize(uint64_t v);
void sym_end(void) __attribute__((noreturn));
int sym_is_native(void);
long sym_arg(const char *name, long dflt);	/* unit parameter */
void sym_debug(const char *m, uint64_t v);
int sym_issym(uint64_t v);
int sym_memeq(const void *a, const void *b, size_t n);	/* one formula, no forking */
void sym_process(int op);			/* variables of the program under test: 0 as initialised, 1 also, keeping the old ones, 2 the kept ones, 3 exchanged with the kept ones */
int sym_co_start(void (*fn)(void *), void *arg);	/* run fn beside this: 0 when it yields, 1 when it is finished */
int sym_co_resume(void);
void sym_co_yield(void);
long sym_live(void);				/* live heap objects (0 natively) */

#define THROW_ABORT	1
#define THROW_CRASH	2
#define THROW_EXIT	1000			/* + status */

static inline uint64_t sym_u(uint64_t lo, uint64_t hi) {
	return sym_u_(hi <= 0xff ? 8 : hi <= 0xffff ? 16 : hi <= 0xffffffffULL ? 32 : 64, lo, hi); }
static inline uint64_t sym_pick(uint64_t n) { return sym_concretize(sym_u(0, n - 1)); }
static inline uint64_t sym_range(uint64_t lo, uint64_t hi) { return sym_concretize(sym_u(lo, hi)); }
static inline int sym_bool(void) { return (int)sym_pick(2); }
static inline void sym_bytes(void *p, size_t n) { sym_make_(p, n, 0, 255); }
static inline void sym_bytes_range(void *p, size_t n, unsigned lo, unsigned hi) { sym_make_(p, n, lo, hi); }
/* one byte out of a set, no forking */
static inline unsigned char sym_oneof(const char *set, unsigned n) { return (unsigned char)set[sym_u(0, n - 1)]; }
#define sym_assert(c, prop, msg) sym_assert_(!!(c), prop, msg)
/* what the rest of the path builds on: if it fails and the property is another one, the path ends */
#define sym_need(c, prop, msg) do { if (!(c)) { sym_assert_(0, prop, msg); sym_end(); } } while (0)
#endif
