PROP='C15'
NEEDS='the store is killed between inserting the index entry and appending the record to an existing silo'
BREAKS='the index entry is written before the record it points to, so after a crash there it points past the end of the silo, and later lookups of this ID fail or abort'
EDITS=[('wsilo.c','''		before = lseek(fds, 0, SEEK_END);
		s = writev(fds, iov, 2);
''','''		before = lseek(fds, 0, SEEK_END);
		IDX_Insert(aa, id, sl->idx, silono, before, NULL);
		s = writev(fds, iov, 2);
'''),('wsilo.c','''		assert(need > s);
		IDX_Insert(aa, id, sl->idx, silono, need - s, NULL);
''','''		assert(need > s);
''')]
#DEMO
lib = shim(r'''
ssize_t writev(int fd, const struct iovec *v, int n) { _exit(77); }
''')
a = Arch()
i1 = a.store(b'first object')
rc, o, e = a.run('store', stdin=b'second object', preload=lib)
need(rc == 77, 'the store was not interrupted')
for dp, dn, fn in os.walk(a.silos):
    for f in fn:
        if 'hold' in f or not f.endswith('.gz') and not f.startswith('index') and 'cache' not in f: os.unlink(os.path.join(dp, f))
rc, o, e = a.run('get', a.id_of(b'second object')); need(rc in (0, 1) or rc == 0, 'lookup of the interrupted object aborts: %d' % rc)
i2 = a.store(b'second object')
for i, d in ((i1, b'first object'), (i2, b'second object')):
    rc, o, e = a.get(i, '-q'); need(rc == 0 and o == d, 'not retrievable: %d' % rc)
