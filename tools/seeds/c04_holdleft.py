PROP='C04'
NEEDS='a silo with room that cannot be opened for appending at the moment'
BREAKS='the hold on this silo is not given back, so a store that succeeds leaves a hold file behind and nothing is ever appended to that silo again'
EDITS=[('wsilo.c','''	if (fdh >= 0) {
		AN(fnh);
''','''	if (fds >= 0) {
		AN(fnh);
''')]
#DEMO
lib = shim(r'''
int open(const char *p, int fl, ...) {
	static int (*real)(const char *, int, ...); va_list ap; int m;
	if (!real) real = dlsym(RTLD_NEXT, "open");
	va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
	if ((fl & O_APPEND) && strstr(p, ".warc.gz")) { errno = EMFILE; return -1; }
	return real(p, fl, m);
}
int open64(const char *p, int fl, ...) { va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
''')
a = Arch(); i = a.store(b'first')
rc, o, e = a.run('store', stdin=b'second', preload=lib); need(rc == 0, 'store fails')
for dp, dn, fn in os.walk(a.silos):
    for f in fn: need(not f.endswith('.hold'), 'hold file left: ' + f)
for k in (b'first', b'second'):
    rc, o, e = a.get(a.id_of(k), '-q'); need(rc == 0 and o == k, 'not retrievable')
