PROP='C21'
NEEDS='formatted text which is exactly one byte longer than the space left in the buffer'
BREAKS='the last byte of the text is lost without an error'
EDITS=[('vsb.c','''	} while (len > VSB_FREESPACE(s) &&
''','''	} while (len > VSB_FREESPACE(s) + 1 &&
''')]
#DEMO
exe = build(VASF + r"""
#include "vsb.h"
int main(void) {
	for (int n = 0; n < 9000; n = n < 200 ? n + 1 : n + 1 + n / 500) for (int m = 1; m < 40; m++) {
		struct vsb *v = VSB_new_auto(); char *s = malloc(n + m + 1);
		memset(s, 'x', n); memset(s + n, 'y', m); s[n + m] = 0;
		if (n) VSB_bcat(v, s, n);
		VSB_printf(v, "%s", s + n);
		if (VSB_finish(v) || VSB_len(v) != n + m || strcmp(VSB_data(v), s)) { printf("%d + %d: %d\n", n, m, (int)VSB_len(v)); return 1; }
		VSB_destroy(&v); free(s);
	}
	return 0; }
""", ['vsb.c', 'vas.c'])
r = subprocess.run([exe], stdout=subprocess.PIPE, text=True); need(r.returncode == 0, 'text lost: ' + r.stdout)
