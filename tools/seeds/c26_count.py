PROP='C26'
NEEDS='a fragment that matches exactly 256 records (or a multiple), given in one or several arguments'
BREAKS='the number of records found is cut to eight bits instead of limited to 255, so byid exits with zero although it found records'
EDITS=[('main_byid.c','''	return (privs->retval < 256 ? privs->retval : 255);
''','''	return (privs->retval & 255);
''')]
#DEMO
a = Arch()
ids = [a.store(b'n%d' % i)[len(a.prefix):] for i in range(16)]
for n in (1, 15, 16, 17):
    rc, o, e = a.run('byid', *[i for i in ids for k in range(n)])
    need(len(o.splitlines()) == 16 * n and rc == min(255, 16 * n), '%d lines, exit status %d' % (len(o.splitlines()), rc))
