PROP='C12'
NEEDS='a segmented object retrieved with -z, where the compressed body of a segment that is not the last reaches one to twelve bytes over the 128 KB read buffer so that its tail arrives in two pieces'
BREAKS='the second piece of a split tail overwrites the first one, so the stitched stream has a bad CRC or the program aborts'
EDITS=[('gzip.c','''			memcpy(gs->tailbuf + 13 - gs->gzlen, p, len);
''','''			memcpy(gs->tailbuf, p, len);
''')]
#DEMO
data = noise(300000)
hit = 0; m = 131072 + 700
while not hit and m < 131072 + 2000:
    a = Arch(maxsize=str(m))
    i = a.store(data)
    bl = [r[4] for f in a.silo_files() for r in walk(f)[1:2]]
    off = [b % 131072 for b in bl[:-1]]
    rc, o, e = a.get(i, '-z', '-q')
    need(rc == 0, 'get -z fails at silo size %d' % m)
    z = zlib.decompressobj(31); d = z.decompress(o); d += z.flush()
    need(z.eof and not z.unused_data and d == data, 'get -z delivers something else at silo size %d' % m)
    for x in off:
        if 1 <= x <= 12: hit = 1
    m += 3
need(hit, 'no silo size with a split tail found')
