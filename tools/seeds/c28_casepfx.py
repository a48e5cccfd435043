PROP='C28'
NEEDS='an ID with the configured prefix written in other case than configured'
BREAKS='the prefix is only recognized in the case it is configured with, so such an ID is refused'
EDITS=[('index.c','''	if (!strncasecmp(id, aa->prefix, strlen(aa->prefix)))
		id += strlen(aa->prefix);

	l = strlen(id);
''','''	if (!strncmp(id, aa->prefix, strlen(aa->prefix)))
		id += strlen(aa->prefix);

	l = strlen(id);
''')]
#DEMO
a = Arch()
i = a.store(b'xyz'); h = i[len(a.prefix):]
for s in (i, h, h.upper(), a.prefix + h.upper(), a.prefix.upper() + h, 'HTTP' + i[4:]):
    rc, o, e = a.get(s, '-q'); need(rc == 0 and o == b'xyz', '%s is not accepted' % s)
