PROP='C24'
NEEDS='at least one file and the listing missing in the archive at the same time, so that several objects are waiting to be sent'
BREAKS='objects are sent in the reverse order of the requests: the listing goes first, the metadata are sent before all files are stored'
EDITS=[('main_stow.c','''				VTAILQ_INSERT_TAIL(&get_list, cp, list);
''','''				VTAILQ_INSERT_HEAD(&get_list, cp, list);
''')]
#DEMO
import stat
a = Arch(); t = os.path.join(a.d, 't'); os.mkdir(t); b = os.path.join(a.d, 'bin'); os.mkdir(b)
files = {}
for i in range(4):
    files['f%d' % i] = noise(300 + i, 50 + i); open(os.path.join(t, 'f%d' % i), 'wb').write(files['f%d' % i])
lst = '/set type=file\n.  type=dir\n' + ''.join('    %s size=%d sha256digest=%s\n' % (n, len(d), hashlib.sha256(d).hexdigest()) for n, d in sorted(files.items())) + '..\n\n'
open(os.path.join(b, 'listing'), 'w').write(lst)
open(os.path.join(b, 'mtree'), 'w').write('#!/bin/sh\ncat %s/listing\n' % b); os.chmod(os.path.join(b, 'mtree'), 0o755)
srv = os.path.join(b, 'server.py'); log = os.path.join(b, 'log')
open(srv, 'w').write(r'''
import sys, struct, hashlib
I = sys.stdin.buffer; O = sys.stdout.buffer; L = open(%r, 'w')
def fr(c, d):
    n = len(d); h = bytes([c]) if n == 0 else bytes([c | 64]) if n == 32 else bytes([c | 128, n]) if n < 256 else bytes([c | 192]) + struct.pack('>I', n)
    O.write(h + d); O.flush()
cur = b''; meta = []; req = []; held = []
while True:
    x = I.read(1)
    if not x: break
    c = x[0] & 7; k = x[0] >> 6
    n = 0 if k == 0 else 32 if k == 1 else I.read(1)[0] if k == 2 else struct.unpack('>I', I.read(4))[0]
    d = I.read(n)
    if c == 1:
        if n: req.append(d)
        else:
            for r in req: fr(1, r[:32])
            fr(1, b'')
    elif c == 2:
        if n: cur += d
        else:
            h = hashlib.sha256(cur).hexdigest()[:32]; L.write('D ' + h + '\n'); fr(2, ('http://x.y/' + h).encode()); cur = b''
    elif c == 3:
        if n: meta.append(d)
        else: L.write('M\n'); L.flush(); fr(3, b'http://x.y/0123456789abcdef0123456789abcdef')
''' % log)
open(a.cfg, 'a').write('stow.j:\n\tdirectory %s\n\tcmd python3 %s\n' % (t, srv))
try: rc, o, e = a.run('stow', 'j', env={'PATH': b + ':' + os.environ['PATH']}, timeout=60)
except subprocess.TimeoutExpired: fail('stow does not end')
need(rc == 0, 'stow fails: %d %r' % (rc, e[-300:]))
want = ['D ' + hashlib.sha256(d).hexdigest()[:32] for n, d in sorted(files.items())] + ['D ' + hashlib.sha256(lst.encode()).hexdigest()[:32], 'M']
got = open(log).read().split('\n')[:-1]
need(got == want, 'sent out of order: %r instead of %r' % (got, want))
