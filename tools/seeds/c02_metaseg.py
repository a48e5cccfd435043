PROP='C02'
NEEDS='a metadata object which is segmented'
BREAKS='the ID of a segmented metadata object is left as that of its first segment, so it depends on the silo size and on the history of the archive'
EDITS=[('segjob.c','''		Ident_Set(sj->aa, sg->hdr, id, sj->ident);
		REPLACE(id, NULL);
''','''		if (Header_Get(sg->hdr, "WARC-Refers-To") == NULL)
			Ident_Set(sj->aa, sg->hdr, id, sj->ident);
		REPLACE(id, NULL);
''')]
#DEMO
d = noise(9000)
got = set()
for m in ('1M', '4000', '3000'):
    a = Arch(maxsize=m)
    r = a.store(b'the object')
    i = a.store(d, '-t', 'metadata', '-m', 'text/meta', '-r', r)
    got.add(i)
    w = hashlib.sha256(('<' + r + '>\n' + hashlib.sha256(d).hexdigest() + '\n').encode()).hexdigest()[:32]
    need(i == a.prefix + w, 'ID is %s, not %s' % (i, w))
    rc, o, e = a.get(i, '-q'); need(rc == 0 and o == d, 'not retrievable')
