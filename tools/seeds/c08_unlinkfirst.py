PROP='C08'
NEEDS='housekeeping is killed after the snapshot has been read but before the new sorted index is in place'
BREAKS='the snapshot is removed before its entries are in the sorted index, so they are lost if housekeeping is killed in between'
EDITS=[('index.c','''	AZ(close(fd));
	AZ(unlink(VSB_data(vsbh)));
	return (retval);
''','''	AZ(close(fd));
	(void)unlink(VSB_data(vsbh));
	return (retval);
'''),('index.c','''		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
''','''		if (sz < (ssize_t)aa->index_sort_size)
			AZ(unlink(VSB_data(vsbh)));
		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
''')]
#DEMO
lib = shim(r'''
int rename(const char *a, const char *b) { _exit(77); }
''')
a = Arch()
ids = [a.store(b'o%d' % i) for i in range(3)]
rc, o, e = a.run('housekeeping', preload=lib)
need(rc == 77, 'housekeeping was not interrupted')
for i in ids: need(a.get(i)[0] == 0, 'an object is not found after housekeeping was killed')
h = os.path.join(a.silos, 'index.hold')
if os.path.exists(h): os.unlink(h)
need(a.run('housekeeping')[0] == 0, 'housekeeping')
for i in ids: need(a.get(i)[0] == 0, 'an object is not found after the repeated housekeeping')
