PROP='C14'
NEEDS='a segmented object which is already in the archive is stored again'
BREAKS='only the hold of the first segment is given up when the object turns out to be in the archive already, the other hold files are left behind'
EDITS=[('segjob.c','''		if (sg->silo != NULL)
			Wsilo_Abandon(&sg->silo);
''','''		if (sg->silo != NULL && sg->segno == 1)
			Wsilo_Abandon(&sg->silo);
''')]
#DEMO
a = Arch(maxsize='3000'); d = noise(7000)
i = a.store(d); b = sorted(os.path.join(p, f) for p, q, fs in os.walk(a.silos) for f in fs)
need(a.store(d) == i, 'another ID')
c = sorted(os.path.join(p, f) for p, q, fs in os.walk(a.silos) for f in fs)
need(b == c, 'files left behind: %s' % (set(c) - set(b)))
