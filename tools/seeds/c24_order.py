PROP='C24'
NEEDS='a large object followed by a small one: the second store finishes before the first one'
BREAKS='the server goes on reading while an object is being stored, so acknowledgements come in another order than the objects'
EDITS=[('main_stevedore.c','''			proto_ctl_ev(stdin_ev, 0);
		} else {''','''			if (VTAILQ_EMPTY(&filter_queue) && filter_job != NULL)
				proto_ctl_ev(stdin_ev, 0);
		} else {''')]
#DEMO
def fr(c, d):
    n = len(d)
    h = bytes([c]) if n == 0 else bytes([c | 64]) if n == 32 else bytes([c | 128, n]) if n < 256 else bytes([c | 192]) + struct.pack('>I', n)
    return h + d
def frames(b):
    o = 0; r = []
    while o < len(b):
        k = b[o] >> 6; c = b[o] & 7; o += 1; n = 0
        if k == 1: n = 32
        elif k == 2: n = b[o]; o += 1
        elif k == 3: n = struct.unpack('>I', b[o:o + 4])[0]; o += 4
        r.append((c, b[o:o + n])); o += n
    return r
a = Arch(maxsize='20M'); objs = [noise(100000, 1) * 60, noise(50, 2), noise(90000, 3) * 30, noise(60, 4)]
open(a.cfg).read(); c = open(a.cfg).read().replace('text/meta', 'text/meta\n\tapplication/json'); open(a.cfg, 'w').write(c)
s = b''
for x in objs:
    for i in range(0, len(x), 100000): s += fr(2, x[i:i + 100000])
    s += fr(2, b'')
p = subprocess.Popen([BIN, '-c', a.cfg, 'stevedore'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=a.d)
import threading
out = []
t = threading.Thread(target=lambda: out.append(p.stdout.read())); t.start()
import time
acks = lambda: [d for c, d in frames(b''.join(out)) if c == 2]
p.stdin.write(s); p.stdin.flush()
# an old client goes on writing; wait for the end of the jobs
time.sleep(3); p.stdin.close(); t.join(100); p.wait(100)
got = [d.decode().rstrip('/').split('/')[-1] for d in acks()]
need(got == [a.id_of(x) for x in objs], 'acknowledgements out of order: %r' % got)
