PROP='C16'
NEEDS='two stores which both see that nobody holds a silo before one of them does, and whose holding it overlaps'
BREAKS='whether a silo is held is looked up first, and the hold file opened whether or not it is there: two stores hold the same silo at the same time'
EDITS=[('wsilo.c','''		fdh = open(VSB_data(fnh), O_WRONLY | O_CREAT | O_EXCL, 0640);
		if (fdh < 0)
			break;

		fds =''','''		if (!access(VSB_data(fnh), F_OK))
			break;

		fdh = open(VSB_data(fnh), O_WRONLY | O_CREAT, 0640);
		if (fdh < 0)
			break;

		fds =''')]
#DEMO
z = noise(300, 1); x = noise(400, 2); y = noise(500, 3); both = 0
for i in range(40):
    for j in range(40):
        a = Arch(maxsize='100000'); a.store(z)
        ra, rb, pa, pb = turns(a, ['store'], x, ['store'], y, i, j)
        for r, d in ((ra, x), (rb, y)):
            need(r[0] == 0, 'a store fails because of another one (%d, %d): %r' % (i, j, r[2][-200:]))
            rc, o, e = a.get(r[1].decode().strip(), '-q'); need(rc == 0 and o == d, 'object not retrievable')
        rc, o, e = a.get(a.id_of(z), '-q'); need(rc == 0 and o == z, 'object not retrievable')
        need(not glob.glob(a.silos + '/**/*.hold', recursive=True), 'hold left behind')
        for f in a.silo_files(): walk(f)
        shutil.rmtree(a.d); both += pb
        if not pb: break
    if not pa: break
need(both > 20, 'the stores do not overlap')
