PROP='C17'
NEEDS='a header with field names that begin with a lower-case letter'
BREAKS='the fields are ordered by byte value rather than by name without regard to case, so upper-case names come first'
EDITS=[('header.c','''		i = strcasecmp(name, hf2->name);
		if (i < 0) {
''','''		i = strcmp(name, hf2->name);
		if (i < 0) {
''')]
#DEMO
exe = build(VASF + r'''
#include "vsb.h"
#include "miniobj.h"
#include "aardwarc.h"
int main(void) {
	struct aardwarc aa[1]; struct header *h; struct vsb *v; const char *p;
	INIT_OBJ(aa, AARDWARC_MAGIC); aa->prefix = "http://x.y/"; aa->id_size = 32;
	h = Header_New(aa);
	Header_Set(h, "Zebra", "1"); Header_Set(h, "apple", "2"); Header_Set(h, "Mouse", "3"); Header_Set(h, "bear", "4");
	v = Header_Serialize(h, -1); VSB_finish(v); p = strstr(VSB_data(v), "\\r\\n"); p = strstr(p + 2, "\\r\\n") + 2;
	return strcmp(p, "apple: 2\\r\\nbear: 4\\r\\nMouse: 3\\r\\nZebra: 1\\r\\n\\r\\n") ? 1 : 0;
}
'''.replace('\\\\', '\\'), ['header.c', 'vsb.c', 'vas.c', 'gzip.c', 'index.c', 'ident.c'])
r = subprocess.run([exe]); need(r.returncode == 0, 'fields not in order: %d' % r.returncode)
