PROP='C01'
NEEDS='an incompressible object that has to be split while the compressor still holds more output than fits in the rest of the silo'
BREAKS='the compressor is not flushed early enough near the end of a silo, so the last lump does not fit and the store aborts'
EDITS=[('segjob.c','''		if (sj->gz->avail_out < 128 * 1024) {
''','''		if (sj->gz->avail_out < 8 * 1024) {
''')]
#DEMO
for m in range(60000, 160000, 10007):
    a = Arch(maxsize=str(m)); d = noise(200000, m)
    i = a.store(d); rc, o, e = a.get(i, '-q'); need(rc == 0 and o == d, 'not retrievable')
