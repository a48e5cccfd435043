PROP='C27'
NEEDS='a record with more than about 64 KB of incompressible data, so one call of the compressor produces more than the smaller buffer holds'
BREAKS='the output buffer of rebuild is smaller than what one input buffer can compress to, so rebuilding aborts or loses data'
EDITS=[('main_rebuild.c','''	unsigned char			obuf[128 * 1024];
''','''	unsigned char			obuf[16 * 1024];
''')]
#DEMO
a = Arch(maxsize='4M')
for n in (100, 70000, 200000, 400000): a.store(noise(n, n))
f = a.silo_files()[0]
c = os.path.join(a.d, 'c.warc.gz'); shutil.copy(f, c)
rc, o, e = a.run('rebuild', c)
need(rc == 0, 'rebuild ends with %d' % rc)
x, y = walk(f), walk(c + '_')
need([r[2] for r in x] == [r[2] for r in y], 'the bodies differ')
