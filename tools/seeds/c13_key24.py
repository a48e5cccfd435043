PROP='C13'
NEEDS='two objects whose IDs share their first 24 digits (metadata stored with explicit IDs), and IDs longer than that'
BREAKS='a record is taken for the requested one if its ID agrees in the digits held by the index, so another object is delivered'
EDITS=[('getjob.c','''		if (strcasecmp(p, gj->id)) {
''','''		if (strncasecmp(p, gj->id, strlen(key))) {
''')]
#DEMO
a = Arch(); r = a.store(b'object'); p = '0123456789abcdef01234567'
ids = [p + '%08x' % i for i in (1, 2, 3)]
for i in ids: a.store(b'meta ' + i.encode(), '-t', 'metadata', '-m', 'text/meta', '-r', r, '-i', i)
for i in ids:
    rc, o, e = a.get(i, '-q'); need(rc == 0 and o == b'meta ' + i.encode(), 'get %s delivers %r' % (i, o))
rc, o, e = a.get(p + '00000009', '-q'); need(rc == 1 and not o, 'get of an ID not in the archive delivers something')
