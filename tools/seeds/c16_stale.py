PROP='C16'
NEEDS='another store appends to the same silo between this store looking at its size and getting hold of it'
BREAKS='the position put in the index is computed from the size found before the silo was held: it points at the record of the other store'
EDITS=[('wsilo.c','''		if (fstat(fds, &st))
			break;
		if (!S_ISREG(st.st_mode))
			break;
		if (!(st.st_mode & S_IWUSR))
			break;
		if (st.st_size + need > aa->silo_maxsize)
			break;

		p = mmap(''','''		p = mmap('''),('wsilo.c','''		need = lseek(fds, 0, SEEK_CUR);
		assert(need > s);
		IDX_Insert(aa, id, sl->idx, silono, need - s, NULL);
''','''		IDX_Insert(aa, id, sl->idx, silono, st.st_size, NULL);
''')]
#DEMO
lib = shim(r'''
static int n;
int open(const char *p, int fl, ...) {
	static int (*real)(const char *, int, ...); va_list ap; int m;
	if (!real) real = dlsym(RTLD_NEXT, "open");
	va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
	if (getenv("OTHER") && (fl & O_CREAT) && (fl & O_EXCL) && strstr(p, ".hold") && ++n == 2) {
		char *o = getenv("OTHER"); unsetenv("LD_PRELOAD");
		if (system(o)) _exit(99);
	}
	return real(p, fl, m);
}
int open64(const char *p, int fl, ...) { va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
''')
a = Arch(maxsize='40000')
z = noise(500, 1); x = noise(700, 2); y = noise(900, 3)
a.store(z)
xf = os.path.join(a.d, 'x'); open(xf, 'wb').write(x)
rc, b, e = a.run('store', stdin=y, preload=lib, env={'OTHER': '%s -c %s store %s >/dev/null' % (BIN, a.cfg, xf)})
need(rc == 0, 'the store fails: %d %r' % (rc, e))
for i, d in ((a.id_of(z), z), (b.decode().strip(), y), (a.id_of(x), x)):
    rc, o, e = a.get(i, '-q'); need(rc == 0 and o == d, 'object not retrievable')
need(len(a.silo_files()) == 1, 'not all in one silo')
