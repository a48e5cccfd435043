PROP='C03'
NEEDS='another store fills the silo between the first look at its size and getting the hold'
BREAKS='the size of the silo is not checked again once the hold is obtained, so the silo grows beyond its maximum size'
EDITS=[('wsilo.c','''		if (!(st.st_mode & S_IWUSR))
			break;
		if (st.st_size + need > aa->silo_maxsize)
			break;

		p = mmap(''','''		if (!(st.st_mode & S_IWUSR))
			break;

		p = mmap(''')]
#DEMO
lib = shim(r'''
static int done;
int open(const char *p, int fl, ...) {
	static int (*real)(const char *, int, ...); va_list ap; int m;
	if (!real) real = dlsym(RTLD_NEXT, "open");
	va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
	if (!done && getenv("OTHER") && (fl & O_WRONLY) && (fl & O_EXCL) && strstr(p, "00000000")) {
		done = 1; char *o = getenv("OTHER"); unsetenv("LD_PRELOAD");
		if (system(o)) _exit(99);
	}
	return real(p, fl, m);
}
int open64(const char *p, int fl, ...) { va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
''')
M = 20000
a = Arch(maxsize=str(M))
one = a.store(noise(4000, 1)); x = noise(9000, 2); y = noise(9000, 3)
xf = os.path.join(a.d, 'x'); open(xf, 'wb').write(x)
b = a.store(y, preload=lib, env={'OTHER': '%s -c %s store %s >/dev/null' % (BIN, a.cfg, xf)})
for f in a.silo_files():
    need(os.path.getsize(f) <= M, '%s is %d bytes long' % (f, os.path.getsize(f)))
for i, d in ((b, y), (a.id_of(x), x)):
    rc, o, e = a.get(i, '-q'); need(rc == 0 and o == d, 'object not retrievable')
