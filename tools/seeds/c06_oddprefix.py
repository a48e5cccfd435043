PROP='C06'
NEEDS='a lookup prefix with an odd number of digits, and an entry in the sorted index which shares all but the last digit and sorts before the wanted ones'
BREAKS='the early end of the walk of the sorted index compares one nibble too many, so matching entries behind the first mismatch are not visited'
EDITS=[('index.c','''				j = memcmp(rec, key_p, cl / 2);
				if (idf->sorted && j > 0)
					break;
''','''				j = memcmp(rec, key_p, (cl + 1) / 2);
				if (idf->sorted && j > 0)
					break;
				j = memcmp(rec, key_p, cl / 2);
''')]
#DEMO
a = Arch()
ids = [a.store(b'object %d' % i).rsplit('/', 1)[-1] for i in range(40)]
need(a.run('housekeeping')[0] == 0, 'housekeeping')
for i in ids:
    for n in (3, 4, 5, 7, 8):
        want = sum(1 for j in ids if j.startswith(i[:n]))
        rc, o, e = a.run('byid', i[:n])
        need(rc == want, 'byid %s: %d instead of %d' % (i[:n], rc, want))
