PROP='C22'
NEEDS='an archive with more than 100 silos'
BREAKS='the 101st silo is put in the directory of the first hundred, so it holds more than 100 silos'
EDITS=[('silo.c','''	if (num >= 100U)
''','''	if (num > 100U)
''')]
#DEMO
a = Arch()
open(os.path.join(a.silos, '_.cache'), 'wb').write(struct.pack('>II', 99, 99))
ids = {}
for n in range(3):
    d = b'object %d' % n; ids[n] = a.store(d)
    open(os.path.join(a.silos, '_.cache'), 'wb').write(struct.pack('>II', 100 + n, 100 + n))
fs = [os.path.relpath(f, a.silos) for f in a.silo_files()]
need(fs == ['0/00000099.warc.gz', '1/01/00000100.warc.gz', '1/01/00000101.warc.gz'], 'silos are %s' % fs)
for n in ids:
    rc, o, e = a.get(ids[n], '-q'); need(rc == 0 and o == b'object %d' % n, 'not retrievable')
rc, o, e = a.run('audit'); need(rc == 0 and all(('#%d' % n).encode() in o for n in (99, 100, 101)), 'audit does not visit all silos')
