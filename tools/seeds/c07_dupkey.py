PROP='C07'
NEEDS='two index entries with the same key and flags but different silos (identical middle segments of two objects), one already in the sorted index and the other in the appendix, then housekeeping'
BREAKS='housekeeping takes the second entry for a duplicate and drops it, so the object it belongs to is no longer retrievable'
EDITS=[('index.c','''			while (len > 0 && memcmp(rec, ptr, 32) == 0) {
''','''			while (len > 0 && memcmp(rec, ptr, KEYSUMM + 4) == 0) {
''')]
#DEMO
a = Arch(maxsize='4000')
A = bytes(1200000); B = bytes(1600000)
x = a.store(A)
keys = [l.split()[0] for l in a.index() if l]
need(a.run('housekeeping')[0] == 0, 'housekeeping')
y = a.store(B)
before = set(a.index())
need(a.run('housekeeping')[0] == 0, 'housekeeping')
need(set(a.index()) == before, 'housekeeping changes the set of entries')
for i, d in ((x, A), (y, B)):
    rc, o, e = a.get(i, '-q'); need(rc == 0 and o == d, 'not retrievable after housekeeping: %r' % e[-200:])
