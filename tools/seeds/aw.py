"""Small driver around the aardwarc binary built in <cwd>/_build; everything happens in a scratch directory."""
import atexit, glob, gzip, hashlib, os, re, shutil, struct, subprocess, sys, tempfile, zlib

REPO = os.getcwd()
BIN = os.path.join(REPO, '_build', 'aardwarc')
TOP = tempfile.mkdtemp(prefix='awdemo')
atexit.register(shutil.rmtree, TOP, True)

def fail(msg):
    print('BROKEN:', msg); sys.stdout.flush()
    shutil.rmtree(TOP, True); os._exit(1)

def need(c, msg):
    if not c: fail(msg)

def shim(src):
    """compile an LD_PRELOAD library"""
    n = os.path.join(TOP, 'shim%d' % len(os.listdir(TOP)))
    open(n + '.c', 'w').write('#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <fcntl.h>\n#include <stdarg.h>\n#include <errno.h>\n#include <sys/types.h>\n#include <sys/uio.h>\n#include <sys/stat.h>\n' + src)
    subprocess.run(['cc', '-w', '-O1', '-shared', '-fPIC', '-o', n + '.so', n + '.c', '-ldl'], check=True)
    return n + '.so'

class Arch:
    num = 0
    def __init__(self, maxsize='1M', sort='1M', bits=128, prefix='http://x.y/', extra=''):
        Arch.num += 1
        self.d = os.path.join(TOP, 'a%d' % Arch.num); os.mkdir(self.d)
        self.cfg = os.path.join(self.d, 'cfg'); self.silos = os.path.join(self.d, 's')
        self.prefix = prefix; self.bits = bits
        open(self.cfg, 'w').write('WARC-Record-ID:\n\t%s %d\nsilo.directory:\n\t%s/\nsilo.max_size:\n\t%s\nindex.sort_size:\n\t%s\n'
            'resource.mime-types:\n\tapplication/octet-stream\n\ttext/plain\nmetadata.mime-types:\n\ttext/meta\nwarcinfo.body:\n\tisPartOf: x\n%s'
            % (prefix, bits, self.silos, maxsize, sort, extra))
        os.mkdir(self.silos)
    def run(self, *a, stdin=b'', preload=None, env=None, timeout=120, text=False):
        e = dict(os.environ); e.update(env or {})
        if preload: e['LD_PRELOAD'] = preload
        p = subprocess.run([BIN, '-c', self.cfg] + list(a), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=self.d)
        return p.returncode, p.stdout, p.stderr
    def store(self, data, *a, **k):
        rc, o, e = self.run('store', *a, stdin=data, **k)
        need(rc == 0, 'store fails: %d %s' % (rc, e.decode('latin1')))
        return o.decode().strip()
    def get(self, i, *a):
        return self.run('get', *a, i)
    def id_of(self, data):
        return hashlib.sha256(data).hexdigest()[:self.bits // 4]
    def silo_files(self):
        r = []
        for dp, dn, fn in os.walk(self.silos):
            r += [os.path.join(dp, f) for f in fn if f.endswith('.warc.gz')]
        return sorted(r)
    def index(self, *a):
        rc, o, e = self.run('dumpindex', *a); need(rc == 0, 'dumpindex fails')
        return sorted(o.decode().splitlines())

def walk(fn):
    """[(offset, header text, body bytes, header member length, body member length)] of a silo"""
    b = open(fn, 'rb').read(); o = 0; r = []
    while o < len(b):
        o0 = o; parts = []; lens = []
        for _ in range(2):
            need(b[o:o + 4] == b'\x1f\x8b\x08\x04', 'no gzip member at %d of %s' % (o, fn))
            l = struct.unpack('<I', b[o + 16:o + 20])[0]
            parts.append(gzip.decompress(b[o:o + l])); lens.append(l); o += l
        z = zlib.decompressobj(31); need(z.decompress(b[o:o + 64]) == b'\r\n\r\n', 'no end of record'); o += len(b[o:o + 64]) - len(z.unused_data)
        r.append((o0, parts[0].decode('latin1'), parts[1], lens[0], lens[1]))
    return r

def hdr(rec, name):
    m = re.search(r'(?im)^%s: *(.*?)\r$' % re.escape(name), rec[1])
    return m.group(1) if m else None

def noise(n, seed=1):
    r = b''; i = 0
    while len(r) < n:
        r += hashlib.sha256(b'%d.%d' % (seed, i)).digest(); i += 1
    return r[:n]

def build(prog, files, extra=()):
    src = os.path.join(TOP, 't.c'); exe = os.path.join(TOP, 't'); open(src, 'w').write(prog)
    r = subprocess.run(['cc', '-w', '-std=gnu99', '-DGITREV="x"', '-I' + REPO, '-include', '/opt/vp/compat/freebsd.h', '-DLIBBSD_NETBSD_VIS', '-isystem', '/usr/include/x86_64-linux-gnu/bsd', '-DLIBBSD_OVERLAY', *extra, '-o', exe, src] + [os.path.join(REPO, f) for f in files] + ['-Wl,--no-as-needed', '-lbsd', '-lz', '-lmd', '-lm'], stderr=subprocess.PIPE, text=True)
    if r.returncode: print(r.stderr); fail('does not compile')
    return exe
VASF = '''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include "vdef.h"
#include "vas.h"
'''

_TURNS = None
def turns(a, cmdA, inA, cmdB, inB, i, j):
    """run A up to its i'th call about a file of the archive, B up to its j'th, A to its end, B to its end; (rc, out, err) of both, and which were paused"""
    global _TURNS
    if _TURNS is None:
        _TURNS = shim(r'''
static long n;
static void at(const char *p) {
	char *d = getenv("T_DIR"), *f = getenv("T_FILE"), b[600]; int fd;
	if (!d || !f || !p || strncmp(p, d, strlen(d)) || n++ != atol(getenv("T_AT"))) return;
	snprintf(b, sizeof b, "%s.at", f); fd = syscall(2, b, O_CREAT | O_WRONLY, 0600); syscall(3, fd);
	snprintf(b, sizeof b, "%s.go", f); while (syscall(21, b, 0)) usleep(500);
}
#define R(x) static typeof(x) *real; if (!real) real = dlsym(RTLD_NEXT, #x)
int open(const char *p, int fl, ...) { R(open); va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); at(p); return real(p, fl, m); }
int open64(const char *p, int fl, ...) { R(open64); va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); at(p); return real(p, fl, m); }
int stat(const char *p, struct stat *s) { R(stat); at(p); return real(p, s); }
int access(const char *p, int m) { R(access); at(p); return real(p, m); }
int link(const char *p, const char *q) { R(link); at(q); return real(p, q); }
int unlink(const char *p) { R(unlink); at(p); return real(p); }
int rename(const char *p, const char *q) { R(rename); at(q); return real(p, q); }
int mkdir(const char *p, mode_t m) { R(mkdir); at(p); return real(p, m); }
FILE *fopen(const char *p, const char *m) { R(fopen); at(p); return real(p, m); }
''')
    import time
    ps = []; fs = []
    def start(cmd, inp, at):
        f = os.path.join(TOP, 'turn%d' % len(ps)); fs.append(f)
        for x in ('.at', '.go'):
            if os.path.exists(f + x): os.unlink(f + x)
        e = dict(os.environ, LD_PRELOAD=_TURNS, T_DIR=a.silos, T_FILE=f, T_AT=str(at)); open(f + '.in', 'wb').write(inp)
        p = subprocess.Popen([BIN, '-c', a.cfg] + list(cmd), stdin=open(f + '.in', 'rb'), stdout=open(f + '.out', 'wb'), stderr=open(f + '.err', 'wb'), env=e, cwd=a.d); ps.append(p)
        while p.poll() is None and not os.path.exists(f + '.at'): time.sleep(0.0005)
        return os.path.exists(f + '.at')
    pa = start(cmdA, inA, i); pb = start(cmdB, inB, j); r = []
    for k in (0, 1):
        open(fs[k] + '.go', 'w').close(); ps[k].wait(60); r.append((ps[k].returncode, open(fs[k] + '.out', 'rb').read(), open(fs[k] + '.err', 'rb').read()))
    return r[0], r[1], pa, pb
