PROP='C09'
NEEDS='several segmented objects with three or more segments, and reindex gets the silos in an order that interleaves them so that segments arrive before their neighbours'
BREAKS='the list of waiting segments is no longer kept in order, so segments never meet their neighbours and their entries are missing from the rebuilt index'
EDITS=[('main_reindex.c','''		if (strncmp(seg2->parent, seg->parent, aa->id_size) > 0)
			break;
		if (seg2->segno < seg->segno)
			break;
''','''		if (seg2->segno < seg->segno)
			break;
''')]
#DEMO
import random
a = Arch(maxsize='3000')
objs = [noise(5000 + 100 * i, 10 + i) for i in range(3)]
ids = [a.store(o) for o in objs]
want = a.index(); fs = a.silo_files()
R = random.Random(1)
for t in range(12):
    for x in os.listdir(a.silos):
        if x.startswith('index'): os.unlink(os.path.join(a.silos, x))
    R.shuffle(fs)
    rc, o, e = a.run('reindex', *fs)
    need(sorted(set(a.index())) == sorted(set(want)), 'the rebuilt index differs')
    for i, d in zip(ids, objs):
        rc, o, e = a.get(i, '-q'); need(rc == 0 and o == d, 'not retrievable after reindex')
