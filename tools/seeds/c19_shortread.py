PROP='C19'
NEEDS='a frame with a payload of 256 bytes or more whose header arrives in pieces, so that a read returns short'
BREAKS='the four length bytes are expected from one read, so a short read is taken for an error'
EDITS=[('proto.c','''		for (j = 1; j < 5; j++) {
			i = read(fd, u + j, 1);
			if (i != 1)
				return (-1);
		}
''','''		j = 4;
		i = read(fd, u + 1, j);
		if (i != j)
			return (-1);
''')]
#DEMO
exe = build(VASF + r'''
#include <sys/wait.h>
#include "aardwarc.h"
int main(void) {
	int p[2]; unsigned cmd = 9, len = 9, k; char buf[1000];
	if (pipe(p)) return 9;
	if (!fork()) {
		unsigned char h[5] = {3 << 6 | 4, 0, 0, 1, 44};
		for (k = 0; k < 5; k++) { write(p[1], h + k, 1); usleep(100000); }
		memset(buf, 'x', 300); write(p[1], buf, 300); _exit(0);
	}
	close(p[1]);
	if (proto_in(p[0], &cmd, &len) != 1) return 2;
	if (cmd != 4 || len != 300) return 3;
	return 0;
}
''', ['proto.c', 'vsb.c', 'vas.c'])
r = subprocess.run([exe]); need(r.returncode == 0, 'frame not received: %d' % r.returncode)
