/* Assertion failures of the code under test become throws that remember where. */
#include <stddef.h>
#include "vdef.h"
#include "vas.h"
#include "env.h"
static void __attribute__((noreturn)) fail(const char *func, const char *file, int line, const char *cond, enum vas_e k) {
	(void)file; (void)k; env_fail_func = func; env_fail_line = line; env_fail_cond = cond; sym_throw(THROW_ABORT); }
void env_install_vas(void) { VAS_Fail_Func = fail; }
