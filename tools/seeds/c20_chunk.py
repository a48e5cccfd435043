PROP='C20'
NEEDS='an incomplete line kept from an earlier chunk, followed by a chunk which fits the buffer alone but not together with what is kept'
BREAKS='the chunk is not limited to the room left behind the kept data, so the end of the buffer is overwritten'
EDITS=[('vlu.c','''		if (u > l->bufl - l->bufp)
			u = l->bufl - l->bufp;
''','''		if (u > l->bufl)
			u = l->bufl - l->bufp;
''')]
#DEMO
exe = build(VASF + r"""
#include "vlu.h"
static int line(void *p, const char *s) { (void)p; puts(s); return 0; }
int main(void) {
	struct vlu *v = VLU_New(line, NULL, 16);
	if (VLU_Feed(v, "abcdefgh", 8)) return 2;
	if (VLU_Feed(v, "ijk\nABC\nDEF", 11)) return 3;
	if (VLU_Feed(v, "GH\n", 3)) return 4;
	VLU_Destroy(&v);
	return 0;
}
""", ['vlu.c', 'vas.c'], ['-fsanitize=address'])
r = subprocess.run([exe], stdout=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
need(r.returncode == 0 and r.stdout == b'abcdefghijk\nABC\nDEFGH\n', 'lines are %r, status %d' % (r.stdout, r.returncode))
