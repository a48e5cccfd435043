PROP='C08'
NEEDS='two runs of housekeeping which both see that no other is in progress before one of them has created the hold file'
BREAKS='whether housekeeping is in progress is looked up before the hold file is created, so two can run at the same time; one of them aborts with the snapshot half merged or removed by the other'
EDITS=[('index.c','''	fdh = open(VSB_data(vsb4), O_RDWR | O_CREAT | O_EXCL, 0640);
	if (fdh < 0 && errno == EEXIST) {
''','''	if (!access(VSB_data(vsb4), F_OK)) {
'''),('index.c','''	spc = malloc(aa->index_sort_size);
''','''	fdh = open(VSB_data(vsb4), O_RDWR | O_CREAT, 0640);
	assert(fdh >= 0);
	spc = malloc(aa->index_sort_size);
''')]
#DEMO
both = 0
for i in range(30):
    for j in range(30):
        a = Arch(maxsize='100000'); ids = [a.store(noise(60, k)) for k in range(3)]
        want = a.index()
        ra, rb, pa, pb = turns(a, ['housekeeping'], b'', ['housekeeping'], b'', i, j)
        for r in (ra, rb): need(r[0] == 0, 'housekeeping fails because of another one (%d, %d): %r' % (i, j, r[2][-200:]))
        need(sorted(set(a.index())) == sorted(set(want)), 'index changed')
        rc, o, e = a.run('housekeeping'); need(rc == 0, 'housekeeping fails'); need(a.index() == want, 'index changed')
        shutil.rmtree(a.d); both += pb
        if not pb: break
    if not pa: break
need(both > 10, 'they do not overlap')
