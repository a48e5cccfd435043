/* shared harness helpers */
#ifndef HX_H
#define HX_H
#include <sys/types.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <zlib.h>
#include "vdef.h"
#include "vas.h"
#include "miniobj.h"
#include "vsb.h"
#include "aardwarc.h"
#include "sym.h"
#include "env.h"
#define HX_PREFIX "http://x.y/"
static inline void hx_init(void) { env_init(); env_install_vas(); env_mkdirp("/s"); }
static inline int hx_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline int hx_hex(int c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
/* open an archive with these settings (0: leave out) */
static inline struct aardwarc *hx_open(unsigned idbits, unsigned maxsize, unsigned sortsize)
{
	char b[600]; int n;
	struct vsb *e = VSB_new_auto(); struct aardwarc *aa;
	n = snprintf(b, sizeof b, "WARC-Record-ID:\n\t" HX_PREFIX " %u\nsilo.directory:\n\t/s/\n", idbits ? idbits : 128);
	if (maxsize) n += snprintf(b + n, sizeof b - n, "silo.max_size:\n\t%u\n", maxsize);
	if (sortsize) n += snprintf(b + n, sizeof b - n, "index.sort_size:\n\t%u\n", sortsize);
	n += snprintf(b + n, sizeof b - n, "mime-types:\n\ttext/plain\nmetadata.mime-types:\n\ttext/meta\n\tapplication/json\nwarcinfo.body:\n\tfmt x\n");
	env_mkfile("/cfg", b, n);
	aa = AardWARC_New("/cfg", e);
	sym_need(aa != NULL, "*", "archive with a valid configuration is not opened");
	VSB_destroy(&e);
	return aa;
}
#endif
